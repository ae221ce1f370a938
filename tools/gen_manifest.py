#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, ROOT + "/lib"); sys.dont_write_bytecode = True
from checks import registry
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in registry.META:
        d = registry.META[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                            "thorough_cmd": "python3 bin/check.py %s --thorough" % i,
                            "technique": d["technique"], "level": d["level"], "level_note": d["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NA.get(i, "check not built yet")})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
