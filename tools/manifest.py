#!/usr/bin/env python3
"""Regenerate MANIFEST.json: one check per property that has a rule module, the rest not applicable."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from manifest_src import TECH, NA, NOTE, BOUNDS

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "analysis/rules/%s.py" % i.lower())) and i in TECH:
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i,
                       "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                       "technique": "static analysis: " + TECH[i], "level": "other",
                       "level_note": NOTE + BOUNDS.get(i, ""), "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "no rule decides it yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "hooks": {"guard": "none", "enable": "", "source_commits": []},
     "not_applicable": na,
     "notes": "All checks analyse the MIR of /repo's current working tree; nothing is executed. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
