"""checks/cost.json from the evidence of the last runs: the order in which obligations are started"""
import glob
import json
import os

from slow import find

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = {}
for f in sorted(glob.glob(os.path.join(V, "evidence", "C??.json"))):
    r[os.path.basename(f)[:3]] = {o["name"]: round(o["wall"]) for o in sorted(find(json.load(open(f))), key=lambda o: o["name"]) if o["wall"] >= 3}
with open(os.path.join(V, "checks", "cost.json"), "w") as f:
    json.dump(r, f, indent=0)
