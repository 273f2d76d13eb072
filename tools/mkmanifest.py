#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the domains."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from domains import DOMAIN
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DOMAIN:
        d = DOMAIN[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
                       "technique": "TLA+ specification %s checked with TLC; scripts drawn by TLC replayed into the real code, recorded traces validated against the specification" % d.spec,
                       "level": "model_checking", "level_note": d.note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
t = json.dumps(m, indent=1) + "\n"
f = os.path.join(V, "MANIFEST.json")
if "--check" in sys.argv:
    sys.exit(0 if open(f).read() == t else "MANIFEST.json is not up to date")
open(f, "w").write(t)
