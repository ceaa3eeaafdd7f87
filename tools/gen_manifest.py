#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]

from checks_table import CHECKS, NOT_APPLICABLE

checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} --tier quick",
        "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c[0],
        "level": "model_checking",
        "level_note": c[1],
    })
na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check built yet")}
      for p in props if p["id"] not in CHECKS]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every check drives the real crate through its public API only. See DESIGN.md.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
