#!/usr/bin/env python3
"""reverttest.py [PROP...]: for every fix commit in KNOWN_FINDINGS.txt (of these properties), undoes it in
/repo's working tree, runs its property's check, restores the tree, and prints whether the check reports it."""
import subprocess, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = set(sys.argv[1:])
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh("git", "-C", "/repo", "status", "--porcelain", "-uno").stdout.strip()
for line in open(ROOT + "/KNOWN_FINDINGS.txt"):
    if not line.startswith("fixed: property="):
        continue
    pid, h = line.split()[1].split("=")[1], line.split()[2]
    if props and pid not in props:
        continue
    d = sh("git", "-C", "/repo", "diff", h, h + "~1")
    p = subprocess.run(["git", "-C", "/repo", "apply", "-3", "-"], input=d.stdout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or "<<<<<<<" in sh("git", "-C", "/repo", "diff").stdout:
        res = "CONFLICT"
    else:
        r = sh("python3", ROOT + "/check.py", pid)
        res = {0: "MISSED", 1: "CAUGHT", 3: "NOBUILD"}.get(r.returncode, "ERROR %d" % r.returncode)
    sh("git", "-C", "/repo", "reset", "-q", "--hard")
    print(res, pid, h, line.split(None, 3)[3].strip()[:80], flush=True)
