#!/usr/bin/env python3
"""Writes MANIFEST.json from legs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
from legs import LEGS, RULES, LEVELS, TECH, NOTES
NA = {}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. Fault and crash injection use a go build overlay of package os kept in /verif/harness/overlay."}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in LEGS:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
            "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(p, TECH[""]),
            "level": LEVELS.get(p, "exploration"), "level_note": NOTES.get(p, NOTES[""])})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "its check is not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
