#!/usr/bin/env python3
"""check.py ID [--replay FILE]: builds the harness package of property ID against /repo's working tree,
runs its generated-input checks and reports.  Exit 0: held.  Exit 1 + VIOLATION line: broken.
Anything else (build failure, time limit, out of memory): error of the check."""
import json, os, re, shutil, subprocess, sys, tempfile, glob

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
PKG = json.load(open(os.path.join(ROOT, "packages.json")))

def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GO111MODULE="on", GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local",
             GOWORK="off", GOPATH=e.get("GOPATH", "/root/go"), GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["VERIF_SEED"] = e.get("VERIF_SEED") or "1"
    e["VERIF_TIER"] = e.get("VERIF_TIER") or "quick"
    for k in list(e):
        if k.startswith("RAPID_") or k in ("GOMEMLIMIT", "GOGC", "GODEBUG"):
            del e[k]
    return e

def build(pkg, out, scratch, race=False):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    if not os.path.exists(REPO + "/go.mod"):
        # /repo's go.mod is untracked there; supply it by overlay when it is missing
        ov = os.path.join(scratch, "overlay.json")
        json.dump({"Replace": {REPO + "/go.mod": HARNESS + "/repo_gomod/go.mod.txt",
                               REPO + "/go.sum": HARNESS + "/repo_gomod/go.sum.txt"}}, open(ov, "w"))
        cmd += ["-overlay", ov]
    cmd.append("./" + pkg)
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
        print("ERROR: harness does not build against the working tree")
        return False
    return True

def findings(pid):
    out = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line)
    return out

OOM = re.compile(r"out of memory|cannot allocate memory|signal: killed")
FATAL = re.compile(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV)", re.M)

def repo_fatal(out):
    """A crash outside the property function (another goroutine, stack exhaustion) inside the code under test."""
    m = FATAL.search(out)
    if not m or OOM.search(out):
        return False
    trace = out[m.start():]
    g = re.search(r"^goroutine \d+.*?(?=\n\n|\Z)", trace, re.M | re.S)
    if not g:
        return False
    for fn in re.findall(r"^([^\s].*?)\(.*\)$", g.group(0), re.M):
        if fn.startswith("runtime") or fn.startswith("panic") or fn.startswith("internal/") or fn.startswith("sync."):
            continue
        return "github.com/keyfuse/tokucore" in fn
    return False

def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    e = env()
    tier, seed = e["VERIF_TIER"], e["VERIF_SEED"]
    info = PKG[pid]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        binp = os.path.join(scratch, "t")
        if not build(info["pkg"], binp, scratch, info.get("race", False)):
            return 3
        evid = os.path.join(ROOT, "evidence", pid + ".json")
        if not replay and os.path.exists(evid):
            os.remove(evid)
        e["VERIF_SCRATCH"] = scratch
        e["GOTRACEBACK"] = "all"
        if not replay:
            e["VERIF_EVIDENCE"] = evid
        args = [binp, "-test.run", "^Test%s$" % pid, "-test.timeout", "0", "-test.v"]
        if replay:
            body = open(replay).read()
            head = json.loads(body.split("\n", 1)[0])
            args[2] = "^Test%s$/^%s$" % (pid, head["sub"])
            e["VERIF_SEED"] = str(head["seed"])
            e["VERIF_TIER"] = head["tier"]
            if "-----FAILFILE-----\n" in body:
                ff = os.path.join(scratch, "x.fail")
                open(ff, "w").write(body.split("-----FAILFILE-----\n", 1)[1])
                args.append("-rapid.failfile=" + ff)
        limit = int(info.get("limit_" + tier, 800 if tier == "quick" else 3600))
        def run():
            try:
                r = subprocess.run(args, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
                return r.returncode, r.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired as x:
                return None, (x.stdout or b"").decode("utf-8", "replace")
        rc, out = run()
        if rc is None:
            print(out[-4000:])
            print("ERROR: time limit of %d s reached: inconclusive" % limit)
            return 4
        crash = False
        if rc not in (0, 1):
            if repo_fatal(out):
                rc2, out2 = run()
                crash = rc2 not in (0, 1, None) and repo_fatal(out2)
            if not crash:
                print(out[-6000:])
                print("ERROR: harness ended with status %s" % rc)
                return 5
        if rc == 0:
            if not replay and not os.path.exists(evid):
                print(out[-3000:])
                print("ERROR: no evidence written")
                return 6
            for f in findings(pid):
                print(f)
            tail = [l for l in out.splitlines() if l.startswith(("ok", "PASS", "--- ", "    --- "))]
            print("\n".join(tail[-40:]))
            print("HELD property=%s tier=%s seed=%s" % (pid, tier, seed))
            return 0
        if not crash and "--- FAIL" not in out:
            print(out[-6000:])
            print("ERROR: status 1 without a failed test")
            return 7
        m = re.search(r"^\s+--- FAIL: Test%s/(\S+)" % pid, out, re.M)
        sub = m.group(1) if m else ".*"
        if replay:
            print(out[-8000:])
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-seed%s.replay" % (pid, re.sub(r"\W", "_", sub), seed))
        ffs = sorted(f for f in glob.glob(scratch + "/testdata/rapid/**/*.fail", recursive=True)
                     if ("Test%s_%s" % (pid, sub)) in f or ("Test%s/%s" % (pid, sub)) in f) \
            or sorted(glob.glob(scratch + "/testdata/rapid/**/*.fail", recursive=True))
        with open(path, "w") as f:
            f.write(json.dumps({"property": pid, "sub": sub, "seed": int(seed), "tier": tier,
                                "replay": "./check.py %s --replay %s" % (pid, path)}) + "\n")
            f.write(out[-20000:] + "\n")
            if ffs:
                f.write("-----FAILFILE-----\n" + open(ffs[0]).read())
        if crash and not os.path.exists(evid):
            json.dump({"property": pid, "tier": tier, "seed": int(seed), "level": "exploration", "wall_s": 0,
                       "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "crashed", "samples": [out[-2000:]]},
                       "violations": 1}, open(evid, "w"))
        print(out[-6000:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
