"""Development: one obligation in this process, verbose."""
import importlib
import json
import sys

sys.setrecursionlimit(100000)
from engine import harness

prop, name = sys.argv[1:3]
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
mod = importlib.import_module("checks." + prop.lower())
for ob in mod.obligations(tier):
    if ob.name == name:
        r = harness.run(ob, tier, 1, prop)
        for k in ("prims", "functions"):
            r.pop(k)
        print(json.dumps(r, indent=1, default=str))
