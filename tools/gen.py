#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties import P, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        o = {k: p[k] for k in ("id", "title", "statement")}
        assert len(p["title"]) <= 80, p["id"]
        o["quantifier"] = {"over": p["over"], "text": p["text"]}
        o["why_tests_cant"] = p["why"]
        a = {"files": p["files"], "mechanism": p["mech"]}
        o["anchors"] = a
        f.write(json.dumps(o) + "\n")
checks, na = [], []
for p in P:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                   "technique": p["tech"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
