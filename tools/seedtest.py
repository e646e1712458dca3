#!/usr/bin/env python3
"""seedtest.py ID... : development aid. Applies each planted change to /repo, builds, runs the stable tests, its demo and the
property's check, undoes it, and prints one line per change. Not used by any check."""
import json, subprocess, sys, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
base=json.load(open("/opt/vp/BASELINE.json"))["stable"]
full="--fast" not in sys.argv
ids=[a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT+"/seeded"))
for i in ids:
    d=ROOT+"/seeded/"+i
    meta=json.load(open(d+"/meta.json"))
    out=[i,meta["property"]]
    assert sh("git -C /repo status --porcelain").stdout=="" , "repo dirty"
    if full:
        r=sh("bash %s/demo.sh"%d,cwd="/repo"); out.append("clean-demo=%d"%r.returncode)
        if r.returncode: print(r.stdout[-1500:])
    a=sh("git -C /repo apply %s/patch.diff"%d)
    if a.returncode: print(i,"DOES NOT APPLY",a.stdout); continue
    try:
        if full:
            b=sh("bash /opt/vp/build.sh"); out.append("build=%d"%b.returncode)
            if b.returncode: print(b.stdout[-1500:])
            sh("bash /opt/vp/test.sh /tmp/seed.json")
            try:
                res=json.load(open("/tmp/seed.json"))
                passed=set(res.get("passed",[])) if isinstance(res.get("passed"),list) else {k for k,v in res.items() if v in("pass","PASS",True)}
                miss=[t for t in base if t not in passed]
                out.append("tests-missing=%d%s"%(len(miss),miss[:3] if miss else ""))
            except Exception as e: out.append("tests?%s"%e)
            r=sh("bash %s/demo.sh"%d,cwd="/repo"); out.append("bug-demo=%d"%r.returncode)
        for p in [meta["property"]]+[p for p in meta.get("also",[])]:
            c=sh("./check.py %s"%p,cwd=ROOT); v=[l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("%s:%s"%(p,"CAUGHT" if c.returncode==1 and v else "missed(rc=%d)"%c.returncode))
    finally:
        sh("git -C /repo checkout -- .")
        sh("git -C /repo clean -fdq")
    print(" ".join(out),flush=True)
