#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, edits=[(file,old,new)], demo (python text), needs, breaks."""
import sys,os,subprocess,json,runpy
spec=runpy.run_path(sys.argv[1])
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
base=json.load(open('/opt/vp/BASELINE.json'))
for sd in spec["seeds"]:
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    d="/verif/seeded/"+sd["id"]
    os.makedirs(d,exist_ok=True)
    open(d+"/demo.py","w").write(sd["demo"])
    open(d+"/demo.sh","w").write('#!/bin/bash\ncd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo timeout 120 /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"\n' if False else
     '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo timeout 120 /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":sd["prop"],"needs":sd["needs"],"what_it_breaks":sd["breaks"]},open(d+"/meta.json","w"),indent=1)
    r0=sh("bash %s/demo.sh"%d,cwd="/repo")
    ok=True
    try:
        for f,old,new in sd["edits"]:
            p="/repo/parce/"+f
            s=open(p).read()
            if s.count(old)<1:
                print(sd["id"],"NO MATCH",old); ok=False; break
            open(p,"w").write(s.replace(old,new,1))
        if not ok: continue
        diff=sh("git -C /repo diff").stdout
        open(d+"/patch.diff","w").write(diff)
        r1=sh("bash %s/demo.sh"%d,cwd="/repo")
        sh("bash /opt/vp/build.sh"); sh("bash /opt/vp/test.sh /tmp/out.json")
        out=json.load(open("/tmp/out.json"))
        passed=set(out.get("passed",[])) if isinstance(out.get("passed"),list) else set(k for k,v in out.items() if v)
        b=base.get("passed") or base.get("tests") or base.get("stable")
        miss=[t for t in b if t not in passed] if b else "?"
        c=sh("timeout 600 python3 /verif/check.py "+sd["prop"],cwd="/verif")
        print(sd["id"],"clean demo",r0.returncode,"patched demo",r1.returncode,"tests missing",miss,"check rc",c.returncode,
              [l for l in c.stdout.splitlines() if l.startswith("VIOL") or "rule " in l][:2])
        if r0.returncode: print("DEMO CLEAN:",r0.stdout[-500:],r0.stderr[-800:])
    finally:
        sh("git -C /repo checkout -- .")
