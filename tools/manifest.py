#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i, "quick_cmd": "python3 bin/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
            "technique": "Quint specification; behaviours generated from it (ITF traces) replayed step by step into the real code" ,
            "level": "model_checking",
            "level_note": NOTES.get(i, "") or "Every step of every generated behaviour is compared exactly; bounded by the number of behaviours explored."})
doc = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "machine not built yet")} for p in props if p["id"] not in PLAN]}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
