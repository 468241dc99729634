"""Setup: the interpreter has everything the checks import, and the solver answers."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
from engine import harness, smt  # noqa
from engine import terms as tm
import numpy as np

x = tm.var("x", -1.0, 1.0)
P = smt.Prover({"x": np.array([0.1, 0.2])})
r = P.check([tm.gt0(tm.sub(tm.mul(x, x), tm.num(1.5)))])
assert r[0] == "unsat", r
print("ok")
