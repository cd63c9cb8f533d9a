"""Bookkeeping of one check run: obligations, findings, evidence, exit code."""
import json
import os
import sys
import time
import traceback

from . import model
from .interp import Budget, Interp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Context:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.program = model.Program()
        self.items = {}        # (rule, instance) -> ("ok"|"fail"|"unknown", detail, where)
        self.analysed = set()
        self.rules = {}        # rule -> text
        self.assumptions = []
        self.floors = {}
        self.steps = 0
        self.extra = {}

    def rule(self, rule, text):
        self.rules[rule] = text

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def _put(self, rule, instance, status, detail, where):
        k = (rule, str(instance))
        rank = {"ok": 0, "unknown": 1, "fail": 2}
        old = self.items.get(k)
        if old is None or rank[status] > rank[old[0]]:
            self.items[k] = (status, detail, where)

    def ok(self, rule, instance, where=""):
        self._put(rule, instance, "ok", "", where)

    def fail(self, rule, instance, detail, where=""):
        self._put(rule, instance, "fail", detail, where)

    def unknown(self, rule, instance, detail="", where=""):
        self._put(rule, instance, "unknown", detail, where)

    def check(self, rule, instance, cond, detail="", where=""):
        if cond is None:
            self.unknown(rule, instance, detail, where)
        elif cond:
            self.ok(rule, instance, where)
        else:
            self.fail(rule, instance, detail, where)
        return cond

    def floor(self, rule, n):
        """At least n instances of the rule must have been found (or the check is broken)."""
        self.floors[rule] = n

    def analyse(self, make, unroll=3, budget=60000, confirm=True):
        """Run make(interp_factory) without and (to confirm failures) with unrolling.

        make(factory) must create an Interp with factory(hooks) and run it, and
        return it. Returns the interpreter of the first run.
        """
        def run(u):
            made = []
            def factory(hooks):
                it = Interp(self.program, hooks, unroll=u, budget=budget * (3 if self.thorough else 1) * (6 if u else 1))
                it.deadline = deadline[0]
                made.append(it)
                return it
            err = None
            try:
                make(factory)
            except Budget as e:
                err = str(e)
                soft[0] = True
            except model.AnchorLost as e:
                # not where it is expected: undecided
                err = "not found: {}".format(e)
                soft[0] = True
            except (RecursionError, ArithmeticError, LookupError, TypeError, AttributeError, ValueError) as e:
                # a construct the analysis has no meaning for: undecided
                if os.environ.get("PA_DEBUG"):
                    raise
                err = "{}: {}".format(type(e).__name__, e)
            return made, err
        soft = [False]
        deadline = [time.time() + (600 if self.thorough else 240)]
        made, err = run(0)
        confirmed = None
        obl, fnd, vague = {}, {}, {}
        if made and err and not soft[0]:
            made[-1].unsure = True
        for it in made:
            self.analysed.update(it.functions)
            self.steps += it.steps
            for k, v in it.obligations.items():
                obl[k[:2] + (v,)] = obl.get(k[:2] + (v,), 0) + 1
            for k, f in it.findings.items():
                if it.unsure:
                    # what is found may as well come from what is not understood
                    vague.setdefault(k, f)
                else:
                    fnd.setdefault(k, f)
        if fnd and confirm:
            confirmed = {}
            deadline[0] = time.time() + (200 if self.thorough else 60)
            for u in range(1, unroll + 1):
                made2, err2 = run(u)
                for it in made2:
                    self.steps += it.steps
                    for k, f in it.findings.items():
                        confirmed.setdefault((k[0], k[1]), f)
                if all(k[:2] in confirmed for k in fnd):
                    break
        for (rule, fn, v), n in obl.items():
            if v == "proved":
                self.ok(rule, fn)
            elif v == "unknown":
                self.unknown(rule, fn, "not decided")
        for k, f in vague.items():
            if k not in fnd:
                self.unknown(f[0], k[1], "not decided: " + f[3], made[0].where(f[2], f[1]) if f[2] else "")
        for k, f in fnd.items():
            rule, node, func, detail, st = f
            c = confirmed.get((k[0], k[1])) if confirmed is not None else f
            where = made[0].where(func, node) if func else ""
            if c is None:
                self.unknown(rule, k[1], "not provable, but no concrete path found: " + detail, where)
            else:
                rule, node, func, detail, st = c
                self.fail(rule, k[1], detail + path_text(st), made[0].where(func, node))
        if err:
            self.unknown("analysis", err, err)
        return made


def path_text(st, n=14):
    if st is None or not st.trace:
        return ""
    return "; path: " + " ".join("{}:{}".format(t[0], " ".join(map(str, t[1:]))) for t in st.trace[-n:])


def load_known(prop):
    known, fixed = {}, []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property={} ".format(prop)):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" -- ")
                known[key.strip()] = text
    return known


def main(prop, run, level="other", technique=""):
    t0 = time.time()
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    evdir = os.environ.get("PA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ctx = None
    try:
        ctx = Context(prop, tier)
        run(ctx)
    except model.AnchorLost as e:
        print("ANALYSIS-BROKEN property={}: {}".format(prop, e))
        return 2
    except SyntaxError as e:
        print("ANALYSIS-BROKEN property={}: cannot parse: {}".format(prop, e))
        return 2
    counts = {}
    for (rule, inst), (status, detail, where) in ctx.items.items():
        c = counts.setdefault(rule, {"instances": 0, "held": 0, "undecided": 0, "violated": 0})
        c["instances"] += 1
        c[{"ok": "held", "unknown": "undecided", "fail": "violated"}[status]] += 1
    known = load_known(prop)
    fails = []
    for (rule, inst), (status, detail, where) in sorted(ctx.items.items()):
        if status == "fail":
            key = "{}|{}".format(rule, inst)
            if key in known:
                print("KNOWN-FINDING: property={} {} -- {}".format(prop, key, known[key]))
            else:
                fails.append((rule, inst, detail, where))
    broken = []
    for rule, n in ctx.floors.items():
        have = counts.get(rule, {}).get("instances", 0)
        if have < n and not any(c["undecided"] for c in counts.values()):
            broken.append("rule {}: {} instances analysed, at least {} expected".format(rule, have, n))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "explanation": "Static analysis of the source in {}: every obligation below was generated from the "
                           "current source text and decided without running it.".format(model.REPO),
            "obligations": sum(c["instances"] for c in counts.values()),
            "discharged": sum(c["held"] for c in counts.values()),
            "undecided": sorted("{}|{}: {}".format(r, i, v[1]) for (r, i), v in ctx.items.items() if v[0] == "unknown"),
            "rules": {r: dict(text=ctx.rules.get(r, ""), **c) for r, c in sorted(counts.items())},
            "functions_analysed": sorted(ctx.analysed),
            "abstract_steps": ctx.steps,
            "modules_parsed": len(ctx.program.modules),
            "samples": sorted("{}|{}".format(r, i) for r, i in ctx.items)[:40],
            **ctx.extra,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fails),
    }
    evpath = os.path.join(evdir, prop + ".json")
    with open(evpath, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for r in sorted(counts):
        c = counts[r]
        print("{} {}: {instances} obligations, {held} hold, {undecided} undecided, {violated} violated".format(prop, r, **c))
    if fails:
        rep = os.path.join(evdir, prop + ".report.txt")
        with open(rep, "w") as f:
            for rule, inst, detail, where in fails:
                line = "{}\n  rule {}: {}\n  construct: {}\n  {}\n".format(where, rule, ctx.rules.get(rule, ""), inst, detail)
                f.write(line)
                print(line, end="")
        print("VIOLATION property={} replay={}".format(prop, rep))
        return 1
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN property={}: {}".format(prop, b))
        return 2
    return 0
