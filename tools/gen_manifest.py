#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN, NOT_APPLICABLE, NOTES
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": "python3 check.py run " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py run " + i,
                       "technique": "deterministic simulation with fault injection: " + NOTES[i][0],
                       "level": PLAN[i]["level"], "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is a symbol the simulator interposes at link time (std::random_device, system_clock::now, rand, fopen/read, malloc/operator new, pthread locks) or the compiler's access instrumentation (-fsanitize=thread calls resolved to the simulator's own scheduler). Checks compile /repo/src from the working tree. All repairs of genuine defects are listed in known_findings.json."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not applicable")
