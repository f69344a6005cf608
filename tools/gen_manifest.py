#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand, output committed)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(d) + "\n")
checks = []
for p in props.PROPS:
    if "check" not in p:
        continue
    c = p["check"]
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s --quick" % p["id"],
                   "thorough_cmd": "bin/check %s --thorough" % p["id"],
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "sh bin/setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if "na" in p],
     "notes": "Every check rebuilds nothing persistent: it runs the Python sources of /repo directly (LALR tables are "
              "regenerated in a scratch directory) and decides each observation with TLC on the specifications in spec/."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
