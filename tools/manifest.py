#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = json.load(open(V + "/tools/technique.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/props/%s.py" % i.lower()) and i in TECH:
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
    "checks": checks, "not_applicable": na,
    "notes": "All checks: seeded generated-input search against an explicit oracle, run by vlib/runner.py; see DESIGN.md. No hooks are needed in /repo: the scheduling policy and access monitor are loaded as a StarPU scheduler plug-in."},
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
