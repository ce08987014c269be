#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOT_CLAIMED
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NOT_CLAIMED.get(p, "model checking applies; its harness is still being built")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo's current sources into its own harness (build/ is ignored by git) and explores the compiled code; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
