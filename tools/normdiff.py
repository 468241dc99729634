"""Development: where the encodings of implementation and specification part ways.

normdiff.py C12 NAME
"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
from engine import harness, prims
from engine import terms as tm
import numpy as np


def s(t):
    return "#%d:%s" % (t.id, tm.show(t, 2)[:90])


def sumdiff(a, b):
    A, B = dict(zip(a.a, a.d[0])), dict(zip(b.a, b.d[0]))
    for m in list(A):
        if m in B and A[m] == B[m]:
            del A[m], B[m]
    print("   %d / %d terms differ; d %s | %s" % (len(A), len(B), str(a.d[1:])[:60], str(b.d[1:])[:60]))
    for X, n in ((A, "impl"), (B, "spec")):
        for m in list(X)[:4]:
            print("     ", n, repr(X[m]), s(m))


mod = importlib.import_module("checks." + sys.argv[1].lower())
for ob in mod.obligations("quick"):
    if ob.name != sys.argv[2]:
        continue
    tm.reset()
    with prims.patched(harness.patches_of(ob)):
        rng = np.random.default_rng(0)
        enc = harness.Encoded(ob, {}, rng)
        ri = enc.run(ob.impl)
        rs = enc.run(ob.spec)
    pts = harness.sample(ob, 6, rng)
    print(ri[0][0], rs[0][0], str(rs)[:600])
    L = [t for o in ri[0][1] for t in o.ravel()]
    R = [t for o in rs[0][1] for t in o.ravel()]
    R = tm.merge(L, R)
    TL, TR = tm.topo(L), tm.topo(R)
    sL, sR = set(TL), set(TR)
    oL = [t for t in TL if t not in sR]
    oR = [t for t in TR if t not in sL]
    print("nodes", len(TL), len(TR), "only", len(oL), len(oR), "identical outputs", [a is b for a, b in zip(L, R)][:20])
    memo = {}
    key = lambda t: tuple(float("%.9g" % v) for v in np.broadcast_to(np.asarray(tm.evaluate([t], pts, memo)[0], float), (6,)))
    kR = {}
    for t in oR:
        kR.setdefault(key(t), t)
    n = 0
    so = set(oL)
    for t in oL:
        if any(x in so and key(x) in kR for x in t.a):
            continue  # not minimal
        k = key(t)
        if k in kR:
            n += 1
            if n <= int(os.environ.get("N", 5)):
                r = kR[k]
                print("--- same value", k[:2], tm.OPN[t.op], tm.OPN[r.op])
                print("  impl", s(t), "d", str(t.d)[:80])
                print("  spec", s(r), "d", str(r.d)[:80])
                if t.op == r.op == tm.ADD:
                    sumdiff(t, r)
                else:
                    for i, (x, y) in enumerate(zip(t.a, r.a)):
                        if x is not y:
                            print("     arg", i, s(x), x in sR, "|", s(y), y in sL)
print(n, "minimal pairs of equal value")
