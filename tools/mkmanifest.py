#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks/registry.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "checks"))
import registry
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    pid = p["id"]
    if pid in registry.CHECKS:
        mod, fun, level, rule = registry.CHECKS[pid]
        m["checks"].append({"property": pid, "quick_cmd": "./check %s" % pid, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % pid,
                            "evidence_file": "evidence/%s.json" % pid, "technique": registry.TECHNIQUE[pid],
                            "level": level, "level_note": registry.NOTE[pid]})
    else:
        m["not_applicable"].append({"property": pid, "reason": registry.NOT_APPLICABLE.get(pid, "check under construction")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
