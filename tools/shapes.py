#!/usr/bin/env python3
"""Writes units/shapes.json: for every function under contract the order of control flow and calls its hints were written for.
Run it when the contracts of a function have been brought up to date with /repo."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import conf
exe = os.path.join(V, "extract/target/release/extract")
out = {}
with tempfile.TemporaryDirectory() as d:
    for u in conf.UNITS:
        subprocess.run([exe, "unit", f"{V}/units/{u}.rs", os.environ.get("SIAMESE_REPO", "/repo"), d + "/o.rs", d + "/o.rep"], check=True)
        for l in open(d + "/o.rep").read().splitlines():
            c = (l.split("\t") + [""] * 9)[:9]
            out[c[0] + "::" + c[1]] = c[8]
json.dump(out, open(V + "/units/shapes.json", "w"), indent=0, sort_keys=True)
print(len(out), "functions")
