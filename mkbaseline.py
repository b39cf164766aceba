#!/usr/bin/env python3
"""Record, on a tree known to be good, the loops and callees of every function under contract (vf/units/baseline.json)."""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import deduct
b = {}
names = sys.argv[1:] or [f[:-3] for f in sorted(os.listdir(os.path.join(deduct.HERE, "units"))) if f.endswith(".py") and f != "__init__.py"]
if sys.argv[1:]: b = deduct.baseline()
for n in names:
    u = importlib.import_module("vf.units." + n).UNIT
    if u.text_sources: continue
    u.assemble()
    b[n] = dict(fns={p: dict(loops=f.item["loops"]) for p, f in sorted(u.fns.items())}, calls=sorted({c for f in u.fns.values() for c in f.item["calls"]}))
json.dump(b, open(deduct.BASE, "w"), indent=0, sort_keys=True)
