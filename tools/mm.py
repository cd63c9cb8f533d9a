"""Run a check on scratch copies of the source with edits applied.

run([(check, edits, expected rc or None), ...]); edits: [(file under parce/, old, new), ...]
"""
import concurrent.futures, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    i, check, edits, expect = job
    d = tempfile.mkdtemp(prefix="mm")
    try:
        shutil.copytree("/repo/parce", d + "/parce", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = d + "/parce/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return "{} {} NO MATCH {!r}".format(i, check, old)
            open(p, "w").write(s.replace(old, new, 1))
            try:
                compile(s.replace(old, new, 1), f, "exec")
            except SyntaxError as e:
                return "{} SYNTAX {} {!r}".format(i, e, new)
        r = subprocess.run(["python3", VERIF + "/check.py", check], env=dict(os.environ, PA_REPO=d, PA_EVIDENCE=d),
                           capture_output=True, text=True)
        out = [l for l in r.stdout.strip().splitlines() if "undecided" not in l or " 0 undecided" not in l]
        bad = "" if expect is None or r.returncode == expect else "*** "
        return "{}{} {} rc {} {} {}   [{}]".format(bad, i, check, r.returncode, " | ".join(out)[:500], r.stderr[-300:],
                                                 edits[-1][2].strip().replace("\n", "\\n")[:60])
    finally:
        shutil.rmtree(d)


def run(jobs):
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        n = 0
        for r in ex.map(one, [(i,) + tuple(j) for i, j in enumerate(jobs)]):
            n += 1
            if r.startswith("***") or " rc " not in r or "-v" in sys.argv:
                print(r, flush=True)
        print(n, "done")
