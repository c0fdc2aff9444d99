#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the checks present.
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MC = "exhaustive bounded enumeration of executions of the real code, compared step by step with a reference model"
FE = "exhaustive crash-point enumeration: every prefix of the recorded file operations, with torn writes, replayed into the real reader"
SCH = "stateless model checking of the real code: all schedules within the bound under a controlled scheduler"
over = json.load(open(os.path.join(D, "tools", "checks.json")))
NA = over.pop("_na", {})
checks, na = [], []
for line in open(os.path.join(D, "properties.jsonl")):
    q = json.loads(line)
    i = q["id"]
    if i in over:
        o = over[i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "technique": {"MC": MC, "FE": FE, "SCH": SCH}[o.get("t", "MC")], "level": o.get("level", "model_checking"), "level_note": o["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks use exported APIs of the real code or the real binary; no hooks in /repo."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
