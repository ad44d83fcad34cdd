#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks_config import CHECKS
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": c.get("technique", "property-based testing: generated inputs against a reference model, shrunk to a replayable choice sequence"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("note", "random search over generated cases; shows presence of violations, never absence; bounds in DESIGN.md")})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
