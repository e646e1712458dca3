#!/usr/bin/env python3
"""mkseed.py: development aid. Takes /repo's uncommitted change as the patch of planted bug ID.
usage: mkseed.py ID PROPERTY 'needs' 'what it breaks' DEMO.go"""
import json, subprocess, sys, os, shutil
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i,p,needs,what,demo=sys.argv[1:6]
d=ROOT+"/seeded/"+i; os.makedirs(d,exist_ok=True)
diff=subprocess.run("git -C /repo diff",shell=True,stdout=subprocess.PIPE,text=True).stdout
assert diff
open(d+"/patch.diff","w").write(diff)
shutil.copy(demo,d+"/main.go"); shutil.copy(ROOT+"/tools/demo.sh",d+"/demo.sh")
json.dump({"property":p,"needs":needs,"what_it_breaks":what},open(d+"/meta.json","w"),indent=1)
subprocess.run("git -C /repo checkout -- .",shell=True)
