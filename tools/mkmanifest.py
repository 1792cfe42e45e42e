#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the checks that exist (vt/pNN.py)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "vt", i.lower() + ".py")):
        n = NOTES["checks"][i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES["not_applicable"].get(i, "machinery for this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na, "notes": NOTES["notes"]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
