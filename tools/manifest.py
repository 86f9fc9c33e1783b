#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the drivers present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools/levels.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    if os.path.exists(os.path.join(V, "drivers", i + ".js")) and i in NOTES:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"node bin/check.js {i} quick", "thorough_cmd": f"node bin/check.js {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "specification and conformance driver not written yet"})
m = {"version": 1, "setup_cmd": "node bin/setup.js", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked by TLC; conformance drivers in drivers/ transpile /repo/src, exercise it and validate the recorded events against the specifications with TLC. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), len(na))
