#!/bin/bash
# Builds every harness package once (nothing is kept but the go build cache).
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import importlib.util, json, os, sys, tempfile, shutil
s = importlib.util.spec_from_file_location("check", "check.py"); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
d = tempfile.mkdtemp(prefix="verif-setup-")
ok = True
for pkg, race in sorted({(i["pkg"], i.get("race", False)) for i in m.PKG.values()}):
    ok = m.build(pkg, os.path.join(d, "t"), d, race) and ok
shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if ok else 1)
P
