#!/usr/bin/env python3
"""rewrites the property table of DESIGN.md (between the markers) from conf.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import conf
ps = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
rows = ["| id | units | decided by |", "|----|-------|------------|"]
for p in ps:
    c = conf.PROPS.get(p["id"])
    if c:
        rows.append("| %s %s | %s | %s |" % (p["id"], p["title"], ", ".join(c["units"]), c["note"]))
    else:
        rows.append("| %s %s | - | not applicable: %s |" % (p["id"], p["title"], conf.NOT_APPLICABLE.get(p["id"], "")))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
a, b = "<!-- properties -->\n", "<!-- /properties -->"
i, j = s.index(a) + len(a), s.index(b)
open(f, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
