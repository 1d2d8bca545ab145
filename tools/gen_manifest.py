#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when tools/levels.json has a note for it."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if "note" in NOTES.get(i, {}):
        n = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": n.get("technique", "TLA+ specification (TLC) with trace validation of the real code"),
            "level": "model_checking",
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("reason", "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
hooks = NOTES.get("hooks")
if hooks:
    m["hooks"] = hooks
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
