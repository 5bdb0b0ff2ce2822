#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, plan
checks = []
for i, p in sorted(plan.PROPS.items()):
    c = dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s thorough" % i,
             evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p["level"], level_note=p["note"] or p["technique"])
    if p.get("theorems"):
        c["theorems"] = p["theorems"]
    checks.append(c)
m = dict(version=1, setup_cmd="python3 -c 'import plan'", checks=checks, not_applicable=[], notes=plan.NOTES)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
