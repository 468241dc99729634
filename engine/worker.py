"""Decides one obligation in a process of its own."""
import importlib
import json
import sys
import resource

sys.setrecursionlimit(100000)


def main():
    prop, name, tier, seed, out = sys.argv[1:6]
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    from engine import harness

    mod = importlib.import_module("checks." + prop.lower())
    for ob in mod.obligations(tier):
        if ob.name == name:
            r = harness.run(ob, tier, int(seed), prop, log=lambda *a: print(*a, file=sys.stderr))
            break
    else:
        r = dict(name=name, status="error", detail="no such obligation")
    with open(out, "w") as f:
        json.dump(r, f, default=str)


main()
