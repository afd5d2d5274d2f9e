#!/usr/bin/env python3
"""writes MANIFEST.json from conf.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from conf import PROPS, HOOKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "check.py PROP decides one property: deductive units (Verus on functions extracted from /repo each run, Kani on the real crate) plus a bounded replay engine. See DESIGN.md."}
if HOOKS:
    m["hooks"] = HOOKS
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": P["technique"], "level": P["level"], "level_note": P["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no contract of this property is verified yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
