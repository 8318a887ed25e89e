#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties listed in CLAIMED below (all of properties.jsonl unless excluded)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
notes = json.load(open(f"{here}/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i)
    if n is None:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick bash mc/check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash mc/check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": n["technique"],
        "level": "model_checking",
        "level_note": n["note"],
    })
m = {"version": 1, "setup_cmd": "bash mc/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public SerialPort trait is the seam. Replay: bash mc/check.sh <ID> --replay replays/<ID>.replay"}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
