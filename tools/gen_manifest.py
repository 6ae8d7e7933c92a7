#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s" % i, "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                       "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
           "notes": "All monitors use the public API of the library built from /repo's working tree with their own instrumented builds; there are no hooks in /repo. "
                    "Every run builds what it needs (cache: /verif/build, keyed by the content of all sources). See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
