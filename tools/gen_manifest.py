#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
conf = json.load(open(root + "/tools/checks.json"))
doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
       "notes": "Every check is a set of rapid properties compiled through a build overlay against /repo's working tree; see DESIGN.md. No hooks are added to /repo."}
for p in props:
    if p in conf:
        c = conf[p]
        doc["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        doc["not_applicable"].append({"property": p, "reason": "no check built yet; the property-based check described in DESIGN.md is in preparation"})
json.dump(doc, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
