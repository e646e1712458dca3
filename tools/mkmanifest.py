#!/usr/bin/env python3
"""Writes MANIFEST.json from packages.json and properties.jsonl."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pk = json.load(open(R + "/packages.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
na = json.load(open(R + "/not_applicable.json")) if os.path.exists(R + "/not_applicable.json") else {}
checks = []
for p in props:
    i = p["id"]
    if i in pk:
        checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": pk[i].get("technique", "property-based testing (rapid) against an independent reference"),
                       "level": "exploration", "level_note": pk[i].get("note", "generated-input search; no proof of absence")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "check not built yet")} for p in props if p["id"] not in pk],
     "notes": "Black-box Go harness in harness/, one package per area; ./check.py ID builds it against /repo's working tree and runs it. No hooks in /repo."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
