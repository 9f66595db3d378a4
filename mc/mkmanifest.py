#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "mc"))
from plan import PLAN, TECH
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    if p in PLAN:
        t = TECH[p]
        checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
                       "technique": t[0], "level": "model_checking", "level_note": t[1]})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in PLAN]
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the library from /repo's working tree (objects are cached by content under /verif/build) and explores the compiled code itself; no hooks in /repo are needed."}
open(os.path.join(H, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
