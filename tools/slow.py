"""Slowest obligations of the last run of a check"""
import json
import sys


def find(o):
    if isinstance(o, dict):
        if "wall" in o and "name" in o:
            yield o
        for v in o.values():
            yield from find(v)
    elif isinstance(o, list):
        for v in o:
            yield from find(v)


for c in sys.argv[1:]:
    L = sorted(find(json.load(open("/verif/evidence/%s.json" % c))), key=lambda o: -o["wall"])
    print(c, len(L), "total %.0f" % sum(o["wall"] for o in L), " ".join("%s:%.0f" % (o["name"], o["wall"]) for o in L[:14]))
