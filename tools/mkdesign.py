#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
mark = "## Planted bugs and the check that catches each\n"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + "\nAll in `seeded/`; each passes the existing tests, and is reported by the check of its property.\n\n| bug | check | what it breaks |\n|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda d: (json.load(open(d))["property"], d)):
    m = json.load(open(d))
    s += "| {} | {} | {} |\n".format(os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"])
open(V + "/DESIGN.md", "w").write(s)
