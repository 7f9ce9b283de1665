#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import plan

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in plan.PLAN:
        na.append({"property": p, "reason": "check under construction"})
        continue
    tech, note = plan.describe(p)
    checks.append({"property": p, "quick_cmd": "python3 bin/check.py %s" % p,
                   "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "The library is header-only and is compiled with instrumented stand-ins for std synchronisation types; no hooks in /repo are needed."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
