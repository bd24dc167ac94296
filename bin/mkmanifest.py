#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the check modules that exist."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(ROOT, "bin", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        t, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i,
                           thorough_cmd="python3 bin/check.py %s thorough" % i,
                           technique=t, level="model_checking", level_note=note, evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; conformance by replaying TLC-generated scenarios and behaviours into PythonicDISORT and validating the recorded traces with TLC. No hooks in /repo are needed: every observation is made through the public API.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
