#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/plan.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": PLAN[i].get("technique", "property-based testing"),
            "level": "exploration",
            "level_note": PLAN[i].get("note", "Randomised search with an exact oracle; assurance extends to the generated sizes only."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": na,
     "notes": "Checks compile /repo's working tree themselves (g++ -fsanitize=address; thorough adds clang libFuzzer). VERIF_SEED seeds every random choice. See DESIGN.md."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
