#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)


def three(text):
    """At most three sentences: further ones are joined with semicolons."""
    parts = text.rstrip(".").split(". ")
    n = len(parts)
    if n <= 3:
        return text
    out = []
    for i in range(3):
        group = parts[i * n // 3:(i + 1) * n // 3]
        out.append("; ".join([group[0]] + [g[0].lower() + g[1:] for g in group[1:]]) + ".")
    return " ".join(out)


def line(p):
    return json.dumps({
        "id": p["id"], "title": p["title"], "statement": three(p["statement"]),
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    })


allp = sorted(props.PROPS + props.NA, key=lambda p: p["id"])
for p in allp:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in allp:
        f.write(line(p) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)'",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "python3 check.py {} --thorough".format(p["id"]),
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    } for p in sorted(props.PROPS, key=lambda p: p["id"])],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(props.NA, key=lambda p: p["id"])],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
