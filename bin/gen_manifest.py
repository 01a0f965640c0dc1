#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    kinds = {x["kind"] for x in PLAN[i].values()}
    tech = []
    if "gen" in kinds:
        tech.append("TLC validates traces recorded from the code against the TLA+ specification")
    if "enum" in kinds:
        tech.append("TLC enumerates specification behaviours that are replayed into the code")
    if "model" in kinds:
        tech.append("TLC model-checks the design-level TLA+ model")
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                   "technique": "TLA+/TLC: " + "; ".join(tech), "level": "model_checking",
                   "level_note": NOTES.get(i, "Exact on every execution explored; executions that were neither generated nor enumerated are not covered. Trusts TLC, the harness's recording, and the Go reflect/strconv packages used to project values.")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness uses the public API only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
