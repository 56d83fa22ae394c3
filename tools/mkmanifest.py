#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in checks/ is claimed, the others are listed with a reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.techniques import TECH, NOTE, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m vlib.compiler",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks observe public interfaces of unmodified sources", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")) and p not in NOT_APPLICABLE:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "exploration", "level_note": NOTE[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet (work in progress); monitoring applies, see DESIGN.md")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
