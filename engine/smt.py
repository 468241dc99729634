"""Deciding equalities and claims on terms with an SMT solver."""
import math
import sys
import time
from fractions import Fraction

import numpy as np

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import terms as tm  # noqa: E402
from .terms import ADD, APP, MUL, NUM, ONE, VAR, T  # noqa: E402

BOOLF = ("gt0", "eq0", "not", "and")


def simple(c):
    """Rational value of a coefficient: decimals and small fractions are exact"""
    if c == int(c) and abs(c) < 1e15:
        return Fraction(int(c))
    f = Fraction(c).limit_denominator(1000000)
    if f != 0 and abs(float(f) - c) <= 1e-15 * abs(c):
        return f
    return Fraction(c)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.identical = 0
        self.expansions = 0
        self.splits = 0
        self.merged = 0
        self.cvc5_queries = 0
        self.cvc5_unsat = 0
        self.cvc5_unknown = 0
        self.max_query = 0
        self.too_big = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d["time"] = round(d["time"], 3)
        return d

    def add(self, o):
        for k, v in o.items():
            if k == "max_query":
                self.max_query = max(self.max_query, v)
            else:
                setattr(self, k, getattr(self, k) + v)


class Disagreement(Exception):
    """z3 and cvc5 contradict each other"""


class Translator:
    def __init__(self, shallow=False):
        self.shallow = shallow  # applications are unconstrained within their bounds
        self.memo = {}
        self.ax = []
        self.atoms = {}  # fn -> [(T, var)]
        self.n = 0
        self.recs = {}
        self.vars = {}

    def fresh(self, p):
        self.n += 1
        return z3.Real("%s!%d" % (p, self.n))

    def val(self, c):
        f = simple(c)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))

    def z(self, root):
        memo = self.memo
        if self.shallow:
            st = [(root, False)]
            seen = set()
            while st:
                t, done = st.pop()
                if t in memo:
                    continue
                if done or t.op in (NUM, VAR):
                    memo[t] = self.tr(t)
                    continue
                if t in seen:
                    continue
                seen.add(t)
                if t.op == APP and t.d[0] not in ("gt0", "eq0", "not", "and", "ite", "relu"):
                    v = self.fresh(t.d[0])
                    self.bounds(v, t)
                    memo[t] = v
                    continue
                st.append((t, True))
                st += [(x, False) for x in t.a]
            return memo[root]
        for t in tm.topo([root], stop=memo):
            if t not in memo:
                memo[t] = self.tr(t)
        return memo[root]

    def bounds(self, v, t):
        if t.lo > -math.inf:
            self.ax.append(v >= self.val(t.lo) if t.op == VAR or t.lo == 0 else v >= self.val(_dn(t.lo)))
        if t.hi < math.inf:
            self.ax.append(v <= self.val(t.hi) if t.op == VAR or t.hi == 0 else v <= self.val(_up(t.hi)))

    def tr(self, t):
        op = t.op
        m = self.memo
        if op == NUM:
            if t.d != t.d or t.d in (math.inf, -math.inf):
                return self.fresh("nan")
            return self.val(t.d)
        if op == VAR:
            v = z3.Real(t.d)
            self.vars[t.d] = v
            self.bounds(v, t)
            return v
        if op == ADD:
            cs, k = t.d
            s = [m[x] if c == 1 else self.val(c) * m[x] for c, x in zip(cs, t.a)]
            if k:
                s.append(self.val(k))
            return z3.Sum(s) if len(s) > 1 else s[0]
        if op == MUL:
            r = None
            for b, e in zip(t.a, t.d):
                for f in self.pw(b, e):
                    r = f if r is None else r * f
            return r
        f = t.d[0]
        a = [m[x] for x in t.a]
        if f == "gt0":
            return a[0] > 0
        if f == "eq0":
            return a[0] == 0
        if f == "not":
            return z3.Not(self.b(a[0]))
        if f == "and":
            return z3.And(*[self.b(x) for x in a])
        if f == "ite":
            return z3.If(self.b(a[0]), a[1], a[2])
        if f == "relu":
            return z3.If(a[0] > 0, a[0], z3.RealVal(0))
        v = self.fresh(f)
        self.bounds(v, t)
        if f == "exp":
            self.ax.append(v > 0)
            self.ax.append(v >= 1 + a[0])
        elif f == "log":
            self.ax.append(v <= a[0] - 1)
            self.ax.append(z3.And(z3.Implies(a[0] > 1, v > 0), z3.Implies(a[0] < 1, v < 0), z3.Implies(a[0] == 1, v == 0)))
        elif f in ("sinh", "tanh", "atan", "asinh", "erf"):
            self.ax.append(z3.And(z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0), z3.Implies(a[0] == 0, v == 0)))
            if f == "sinh":
                self.ax.append(z3.Implies(a[0] >= 0, v >= a[0]))
        prev = self.atoms.setdefault(t.d, [])
        for t2, v2 in prev[-14:]:
            if len(t2.a) != len(t.a):
                continue
            df = [(m[x], m[y]) for x, y in zip(t.a, t2.a) if x is not y]
            if len(df) > 6:
                continue
            if f in ("exp", "log", "sinh", "tanh", "atan", "asinh"):
                self.ax.append(
                    z3.And(
                        z3.Implies(a[0] < m[t2.a[0]], v < v2),
                        z3.Implies(a[0] > m[t2.a[0]], v > v2),
                        z3.Implies(a[0] == m[t2.a[0]], v == v2),
                    )
                )
            elif df:
                self.ax.append(z3.Implies(z3.And(*[p == q for p, q in df]), v == v2))
        prev.append((t, v))
        return v

    def b(self, x):
        if z3.is_bool(x):
            return x
        return x != 0

    def rec(self, b):
        r = self.recs.get(b)
        if r is None:
            r = self.fresh("inv")
            zb = self.memo[b]
            self.ax.append(r * zb == 1)
            if b.lo >= 0:
                self.ax.append(r > 0)
                if 0 < b.lo:
                    self.ax.append(r <= self.val(_up(1 / b.lo)))
            elif b.hi <= 0:
                self.ax.append(r < 0)
            self.recs[b] = r
        return r

    def pw(self, b, e):
        if isinstance(e, int) or e == int(e):
            e = int(e)
            if abs(e) > 24:
                return [self.opaque(b, e)]
            x = self.memo[b] if e > 0 else self.rec(b)
            return [x] * abs(e)
        n = math.floor(e)
        fr = e - n
        out = []
        if n:
            if abs(n) > 24:
                return [self.opaque(b, e)]
            x = self.memo[b] if n > 0 else self.rec(b)
            out += [x] * abs(n)
        out.append(self.opaque(b, tm.canon(fr)))
        return out

    def opaque(self, b, e):
        k = ("pw", b, e)
        v = self.recs.get(k)
        if v is None:
            v = self.fresh("pow")
            zb = self.memo[b]
            self.ax.append(v >= 0)
            if b.lo > 0:
                self.ax.append(v > 0)
            lo, hi = tm._ipow(b.lo, b.hi, e)
            if lo > 0 and lo < math.inf:
                self.ax.append(v >= self.val(_dn(lo)))
            if hi < math.inf:
                self.ax.append(v <= self.val(_up(hi)))
            f = Fraction(e).limit_denominator(64)
            if abs(float(f) - e) < 1e-14 and f.denominator <= 4 and abs(f.numerator) <= 8:
                p = v
                for _ in range(f.denominator - 1):
                    p = p * v
                q = None
                for _ in range(abs(f.numerator)):
                    x = zb if f.numerator > 0 else self.rec(b)
                    q = x if q is None else q * x
                self.ax.append(p == q)
            elif e > 0:
                self.ax.append(z3.And(z3.Implies(zb > 1, v > 1), z3.Implies(zb < 1, v < 1), z3.Implies(zb == 1, v == 1)))
                self.ax.append((v == 0) == (zb == 0))
            for k2, v2 in list(self.recs.items())[-12:]:
                if isinstance(k2, tuple) and k2[2] == e and k2[1] is not b and e > 0:
                    zc = self.memo[k2[1]]
                    self.ax.append(z3.And(z3.Implies(zb < zc, v < v2), z3.Implies(zb > zc, v > v2), z3.Implies(zb == zc, v == v2)))
            self.recs[k] = v
        return v


def _dn(x):
    return x - 1e-12 * abs(x)


def _up(x):
    return x + 1e-12 * abs(x)


# ------------------------------------------------------------------ polynomials
class TooBig(Exception):
    pass


def _expandable(m):
    if m.op == ADD:
        return True
    if m.op == MUL:
        return any(b.op == ADD and e >= 1 for b, e in zip(m.a, m.d))
    return False


class Rat:
    """Expansion of terms as numerator / denominator with the numerator a sum of
    monomials {monomial: [coefficient, magnitude]}"""

    def __init__(self, cap, depth, opaque=False):
        self.cap = cap
        self.depth = depth
        self.opaque = opaque  # powers of long sums, and denominators, stay as they are
        self.memo = {}

    def _acc(self, acc, m, c, g):
        o = acc.get(m)
        if o is None:
            acc[m] = [c, g]
            if len(acc) > self.cap:
                raise TooBig
        else:
            o[0] += c
            if g > o[1]:
                o[1] = g

    def clean(self, p):
        return {m: v for m, v in p.items() if abs(v[0]) > 1e-11 * v[1]}

    def pmul(self, A, B, depth):
        out = {}
        self.work = getattr(self, "work", 0) + len(A) * len(B)
        if self.work > 40 * self.cap:
            raise TooBig
        for m1, (c1, g1) in A.items():
            for m2, (c2, g2) in B.items():
                if m1 is ONE:
                    c, m = 1.0, m2
                elif m2 is ONE:
                    c, m = 1.0, m1
                else:
                    c, m = tm.mulc([(m1, 1), (m2, 1)])
                cc = c * c1 * c2
                gg = abs(c) * g1 * g2
                if depth > 0 and _expandable(m):
                    N, D = self.ratio(m, depth - 1)
                    if D:
                        self._acc(out, m, cc, gg)
                        continue
                    for m3, (c3, g3) in N.items():
                        self._acc(out, m3, cc * c3, gg * g3)
                else:
                    self._acc(out, m, cc, gg)
        return self.clean(out)

    def ppow(self, A, e, depth):
        r = {ONE: [1.0, 1.0]}
        for _ in range(e):
            r = self.pmul(r, A, depth)
        return r

    def base(self, b, depth):
        """polynomial of a denominator base"""
        N, D = self.ratio(b, depth)
        return N

    def ratio(self, t, depth):
        key = (t, depth)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._ratio(t, depth)
        return r

    def _ratio(self, t, depth):
        op = t.op
        if op == NUM:
            return ({ONE: [t.d, abs(t.d)]} if t.d else {}), {}
        if op == ADD:
            cs, k = t.d
            parts = [({ONE: [k, abs(k)]}, {})] if k else []
            for c, m in zip(cs, t.a):
                N, D = self.ratio(m, depth)
                parts.append(({x: [c * v[0], abs(c) * v[1]] for x, v in N.items()}, D))
            L = {}
            for _, D in parts:
                for b, e in D.items():
                    L[b] = max(L.get(b, 0), e)
            out = {}
            for N, D in parts:
                P = N
                for b, e in L.items():
                    d = e - D.get(b, 0)
                    if d:
                        P = self.pmul(P, self.ppow(self.base(b, depth), d, depth), depth)
                for m, (c, g) in P.items():
                    self._acc(out, m, c, g)
            return self.clean(out), L
        if op == MUL:
            P = {ONE: [1.0, 1.0]}
            D = {}
            rest = []
            for b, e in zip(t.a, t.d):
                if b.op == ADD:
                    n = math.floor(e)
                    fr = e - n
                    if self.opaque and (n < 0 or len(b.a) > 12):
                        rest.append((b, e))
                        continue
                    if n > 0 and depth > 0:
                        N, Db = self.ratio(b, depth - 1)
                        P = self.pmul(P, self.ppow(N, n, depth), depth)
                        for x, y in Db.items():
                            D[x] = D.get(x, 0) + y * n
                    elif n < 0:
                        N, Db = self.ratio(b, max(depth - 1, 0))
                        if Db:
                            for x, y in Db.items():
                                P = self.pmul(
                                    P, self.ppow(self.base(x, depth), y * -n, depth), depth
                                )
                            b2 = tm.lin([(c, m) for m, (c, g) in N.items()])
                            s, b2 = tm.primitive(b2)
                            P = {m: [c * s**n, g * abs(s) ** n] for m, (c, g) in P.items()}
                        else:
                            b2 = b
                        if b2.op == ADD and not (len(b2.a) == 1 and b2.d[1] == 0):
                            D[b2] = D.get(b2, 0) - n
                        else:
                            c, m = tm.mulc([(b2, n)])
                            P = self.pmul(P, {m: [c, abs(c)]}, depth)
                    elif n:
                        rest.append((b, n))
                    if fr:
                        rest.append((b, tm.canon(fr)))
                else:
                    rest.append((b, e))
            if rest:
                c, m = tm.mulc(rest)
                P = self.pmul(P, {m: [c, abs(c)]}, 0)
            return P, D
        return {t: [1.0, 1.0]}, {}


def _mabs(t):
    return max(abs(t.lo), abs(t.hi))


def _lowabs(t):
    return t.lo if t.lo > 0 else (-t.hi if t.hi < 0 else 0.0)


def ratio_diff(t1, t2, depth, cap, atol=0.0, opaque=False):
    """Numerator of t1 - t2 (over a non vanishing denominator): {} if identical, or if
    what is left is bounded by rounding over the whole domain"""
    R = Rat(cap, depth, opaque)
    N, D = R.ratio(tm.sub(t1, t2), depth)
    if N and len(N) < 2000:
        tol = max(atol, 1e-10 * _lowabs(t1), 1e-10 * _lowabs(t2))
        if tol > 0:
            b = 0.0
            for m, (c, g) in N.items():
                b += abs(c) * (1.0 if m is ONE else _mabs(m))
            for x, e in D.items():
                l = _lowabs(x)
                b = b / l**e if l > 0 else math.inf
            if b <= tol:
                return {}
    return N


# ------------------------------------------------------------------ prover
class Result:
    def __init__(self, status, how="", model=None):
        self.status = status  # proved, cex, unknown
        self.how = how
        self.model = model

    def __repr__(self):
        return "Result(%s, %s)" % (self.status, self.how)


class Prover:
    def __init__(self, points, assume=None, timeout=5.0, deadline=None, rtol=1e-7, cross=False, atol=0.0):
        self.atol = 0.0
        self.goal_atol = atol
        self.max_nodes = 1500
        self.points = points  # name -> array[K]
        self.memo = {}
        self.stats = Stats()
        self.assume = assume if assume is not None else tm.TRUE
        self.timeout = timeout
        self.deadline = deadline or (time.time() + 300)
        self.rtol = rtol
        self.cache = {}
        self.uni = {}  # merged atoms
        self.cross = cross
        self.notes = []
        self.depth_calls = 0

    # ---- solver
    def check(self, formulas, timeout=None):
        """formulas: boolean terms to assert. Returns (status, model)"""
        if self.shallow_unsat(formulas):
            return "unsat", None
        if len(tm.topo(formulas)) > self.max_nodes:
            self.stats.too_big += 1
            return "unknown", None
        tr = Translator()
        zs = [tr.b(tr.z(f)) if f.op != NUM else z3.BoolVal(bool(f.d)) for f in formulas]
        axs = []
        if tm.S.axioms:
            # contracts of the stubs which the query mentions
            nodes = set(tm.topo(formulas))
            for a in tm.S.axioms:
                if any(n in nodes for n in tm.topo([a]) if n.op == APP and n.d[0] == "solve"):
                    axs.append(tr.b(tr.z(a)))
        s = z3.Solver()
        s.set("timeout", int(1000 * (timeout or self.timeout)))
        s.add(*tr.ax)
        s.add(*axs)
        s.add(*zs)
        self.stats.queries += 1
        self.stats.max_query = max(self.stats.max_query, tr.n + len(tr.memo))
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unknown:
            s2 = z3.Tactic("qfnra-nlsat").solver()
            s2.set("timeout", int(1000 * (timeout or self.timeout)))
            s2.add(*tr.ax)
            s2.add(*axs)
            s2.add(*zs)
            try:
                r = s2.check()
                if r == z3.sat:
                    s = s2
            except z3.Z3Exception:
                r = z3.unknown
        self.stats.time += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
            if self.cross:
                self.cross_check(s)
            return "unsat", None
        if r == z3.sat:
            self.stats.sat += 1
            mod = {}
            try:
                m = s.model()
                for n, v in tr.vars.items():
                    mod[n] = _zval(m.eval(v, model_completion=True))
            except z3.Z3Exception:
                pass
            return "sat", mod
        self.stats.unknown += 1
        return "unknown", None

    def shallow_unsat(self, formulas, ne=None, tol=0.0):
        """Unsatisfiable whatever the values of the applications of functions?"""
        roots = list(formulas) + list(ne or ())
        if not any(
            t.op == APP and t.d[0] not in ("gt0", "eq0", "not", "and", "ite", "relu")
            for t in tm.topo(roots)
        ):
            return False
        tr = Translator(shallow=True)
        s = z3.Solver()
        s.set("timeout", int(1000 * min(3.0, self.timeout)))
        zs = [tr.b(tr.z(f)) if f.op != NUM else z3.BoolVal(bool(f.d)) for f in formulas]
        if ne:
            l, r = tr.z(ne[0]), tr.z(ne[1])
            if z3.is_bool(l) or z3.is_bool(r):
                zs.append(tr.b(l) != tr.b(r))
            elif tol:
                zs.append(z3.Or(l - r > tr.val(tol), r - l > tr.val(tol)))
            else:
                zs.append(l != r)
        s.add(*tr.ax)
        s.add(*zs)
        self.stats.queries += 1
        self.stats.max_query = max(self.stats.max_query, tr.n + len(tr.memo))
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.time += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
            if self.cross:
                self.cross_check(s)
            return True
        if r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return False

    def cross_check(self, s):
        """The same query to cvc5"""
        import cvc5

        txt = s.to_smt2()
        self.stats.cvc5_queries += 1
        t0 = time.time()
        try:
            tmn = cvc5.TermManager()
            sv = cvc5.Solver(tmn)
            sv.setOption("tlimit-per", "5000")
            sv.setLogic("QF_NRA")
            p = cvc5.InputParser(sv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            res = None
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                o = c.invoke(sv, sm)
                o = o.decode() if isinstance(o, bytes) else str(o)
                if o.strip() in ("sat", "unsat", "unknown"):
                    res = o.strip()
        except Exception as ex:
            res = "error " + str(ex)[:100]
        self.stats.time += time.time() - t0
        if res == "unsat":
            self.stats.cvc5_unsat += 1
        elif res == "sat":
            raise Disagreement("cvc5 finds a model of a query which z3 refutes")
        else:
            self.stats.cvc5_unknown += 1

    # ---- numeric
    def val(self, t):
        v = self.memo.get(t)
        if v is None:
            v = tm.evaluate([t], self.points, self.memo)[0]
        return np.broadcast_to(v, (len(next(iter(self.points.values()))) if self.points else 1,))

    def same(self, a, b, atol=0.0):
        x, y = self.val(a), self.val(b)
        with np.errstate(all="ignore"):
            ok = np.isfinite(x) & np.isfinite(y)
            if not ok.any():
                return True
            d = np.abs(x - y) <= self.rtol * (np.abs(x) + np.abs(y)) + 1e-300 + atol
        return bool(d[ok].all()) and bool((np.isnan(x) == np.isnan(y)).all())

    def absdiff_small(self, a, b):
        return self.same(a, b)

    def late(self):
        return time.time() > self.deadline

    # ---- equality
    def eq(self, t1, t2):
        if t1 is t2:
            self.stats.identical += 1
            return Result("proved", "identical")
        k = (t1, t2)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._eq(t1, t2)
        return r

    def size(self, t, cap):
        n = 0
        for _ in tm.topo([t]):
            n += 1
        return n

    def _eq(self, t1, t2):
        if not self.same(t1, t2, self.goal_atol if self.depth_calls == 0 else 0.0):
            return Result("cex", "simulation")
        a, b = self.unify(t1, t2)
        if a is b:
            return Result("proved", "congruence")
        r = self.local(a, b)
        if r.status == "proved":
            return r
        g = self.generalise(a, b)
        if g is not None:
            r = self.timed_split(g[0], g[1])
            if r.status == "proved":
                return r
        a2, b2 = self.sweep(a, b)
        if a2 is b2:
            return Result("proved", "sweep")
        if (a2, b2) != (a, b):
            r = self.local(a2, b2)
            if r.status == "proved":
                return r
        g = self.generalise(a2, b2) if (a2, b2) != (a, b) else None
        if g is not None:
            r = self.timed_split(g[0], g[1])
            if r.status == "proved":
                return r
        return self.split(a2, b2, [])

    def timed_split(self, a, b):
        dl = self.deadline
        self.deadline = min(dl, time.time() + max(10.0, 0.3 * (dl - time.time())))
        try:
            return self.split(a, b, [])
        finally:
            self.deadline = dl

    def generalise(self, a, b):
        """Largest common subterms become arbitrary values (within their bounds)"""
        common = set(tm.topo([a])) & set(tm.topo([b]))
        mp = {}
        seen = set()
        st = [a, b]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t in common and t.op in (ADD, MUL, APP) and not t.isb and not t.fin:
                if any(x.op == APP for x in tm.topo([t])):
                    v = tm.var("@%d" % t.id, t.lo, t.hi)
                    self.memo[v] = self.val(t)
                    mp[t] = v
                    continue
            st += t.a
        if not mp:
            return None
        memo = {}
        return tm.rebuild(a, mp, memo), tm.rebuild(b, mp, memo)

    def local(self, a, b, z3first=True):
        """Identity of two terms whose atoms have been unified"""
        if a is b:
            return Result("proved", "identical")
        if isb(a) or isb(b):
            return self.boolean_eq(a, b)
        for depth, cap, op in ((3, 1000, True), (0, 4000, False), (1, 6000, False), (2, 12000, False), (6, 30000, False)):
            if self.late():
                return Result("unknown", "deadline")
            try:
                N = ratio_diff(a, b, depth, cap, opaque=op)
            except (TooBig, RecursionError, OverflowError):
                if op:
                    continue
                break
            if not N:
                self.stats.expansions += 1
                return self.confirm(a, b, depth, cap, opaque=op)
        return Result("unknown", "identity")

    def confirm(self, a, b, depth, cap, goal=0.0, opaque=False):
        """The expansion says that a - b vanishes identically: put the equality of the
        expanded sides to the solver."""
        try:
            R = Rat(cap, depth, opaque)
            N1, D1 = R.ratio(a, depth)
            N2, D2 = R.ratio(b, depth)
            for x in list(D1):
                if x in D2:
                    e = min(D1[x], D2[x])
                    D1, D2 = dict(D1), dict(D2)
                    D1[x] -= e
                    D2[x] -= e
            L, Rr = N1, N2
            for x, e in D2.items():
                if e:
                    L = R.pmul(L, R.ppow(R.base(x, depth), e, depth), depth)
            for x, e in D1.items():
                if e:
                    Rr = R.pmul(Rr, R.ppow(R.base(x, depth), e, depth), depth)
        except (TooBig, OverflowError):
            return Result("proved", "expansion")
        if len(L) > 400:
            return Result("proved", "expansion")
        mags = {m: v[1] for m, v in L.items()}
        for m, v in Rr.items():
            mags[m] = max(mags.get(m, 0), v[1])
        # coefficients which differ by rounding are one constant
        Rc = {}
        for m, v in Rr.items():
            if m in L and abs(L[m][0] - v[0]) <= 1e-11 * mags[m]:
                Rc[m] = L[m][0]
            else:
                Rc[m] = v[0]
        l = tm.lin([(c, m) for m, (c, g) in L.items()])
        r = tm.lin([(c, m) for m, c in Rc.items()])
        st, mod = self.check_ne(l, r)
        if st == "unsat":
            return Result("proved", "solver")
        if l is r:
            return Result("proved", "expansion")
        # coefficients which differ by rounding
        tol = max(goal if not (D1 or D2) else 0.0, 1e-10 * _lowabs(l), 1e-10 * _lowabs(r))
        if tol > 0:
            st, mod = self.check_raw(l, r, (), tol)
            if st == "unsat":
                return Result("proved", "solver (rounding)")
            if st == "unknown":
                return Result("proved", "interval (rounding)")
        return Result("unknown", "identity not confirmed: " + st)

    def check_ne(self, l, r, path=()):
        return self.check_raw(l, r, path)

    def check_raw(self, l, r, path=(), tol=0.0):
        """domain and path and l != r (by more than tol)"""
        fs = [p for p in path if p.op != NUM]
        if self.assume.op != NUM:
            fs.append(self.assume)
        if self.shallow_unsat(fs, (l, r), tol):
            return "unsat", None
        if len(tm.topo([l, r] + fs)) > self.max_nodes:
            self.stats.too_big += 1
            return "unknown", None
        tr = Translator()
        zl, zr = tr.z(l), tr.z(r)
        ps = [tr.b(tr.z(p)) for p in path if p.op != NUM]
        if self.assume.op != NUM:
            ps.append(tr.b(tr.z(self.assume)))
        axs = self._axioms([l, r] + list(path), tr)
        s = z3.Solver()
        s.set("timeout", int(1000 * self.timeout))
        if z3.is_bool(zl) or z3.is_bool(zr):
            ne = tr.b(zl) != tr.b(zr)
        elif tol:
            ne = z3.Or(zl - zr > tr.val(tol), zr - zl > tr.val(tol))
        else:
            ne = zl != zr
        s.add(*tr.ax)
        s.add(*axs)
        s.add(*ps)
        s.add(ne)
        self.stats.queries += 1
        self.stats.max_query = max(self.stats.max_query, len(tr.memo))
        t0 = time.time()
        r_ = s.check()
        if r_ == z3.unknown:
            s2 = z3.Tactic("qfnra-nlsat").solver()
            s2.set("timeout", int(1000 * self.timeout))
            s2.add(*s.assertions())
            try:
                r_ = s2.check()
                if r_ == z3.sat:
                    s = s2
            except z3.Z3Exception:
                r_ = z3.unknown
        self.stats.time += time.time() - t0
        if r_ == z3.unsat:
            self.stats.unsat += 1
            if self.cross:
                self.cross_check(s)
            return "unsat", None
        if r_ == z3.sat:
            self.stats.sat += 1
            try:
                m = s.model()
                return "sat", {
                    n: _zval(m.eval(v, model_completion=True)) for n, v in tr.vars.items()
                }
            except z3.Z3Exception:
                return "sat", None
        self.stats.unknown += 1
        return "unknown", None

    def _axioms(self, roots, tr):
        axs = []
        if tm.S.axioms:
            nodes = set(tm.topo(roots))
            for a in tm.S.axioms:
                if any(n in nodes for n in tm.topo([a]) if n.op == APP and n.d[0] == "solve"):
                    axs.append(tr.b(tr.z(a)))
        return axs

    def boolean_eq(self, a, b):
        st, m = self.check_raw(a, b)
        if st == "unsat":
            return Result("proved", "solver")
        return Result("unknown", "boolean " + st, m)

    # ---- merging atoms
    def atoms(self, t):
        """Applications at the arithmetic frontier"""
        out = []
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == APP:
                out.append(x)
            elif x.op in (ADD, MUL):
                st.extend(x.a)
        return out

    def unify(self, t1, t2):
        """Replace the atoms of t1 by equal atoms of t2"""
        for _ in range(3):
            A, B = set(self.atoms(t1)), set(self.atoms(t2))
            oa, ob = A - B, B - A
            if not oa or not ob:
                return t1, t2
            idx = {}
            for y in ob:
                idx.setdefault(y.d, []).append(y)
            mp = {}
            for x in sorted(oa):
                if self.late():
                    break
                for y in idx.get(x.d, ()):
                    if len(y.a) != len(x.a) or not self.same(x, y):
                        continue
                    if self.app_eq(x, y):
                        mp[x] = y
                        self.stats.merged += 1
                        break
            if not mp:
                return t1, t2
            t1n = tm.rebuild(t1, mp)
            if t1n is t2:
                return t2, t2
            if t1n is t1:
                return t1, t2
            t1 = t1n
        return t1, t2

    def app_eq(self, x, y):
        k = (x, y)
        r = self.cache.get(k)
        if r is not None:
            return r.status == "proved"
        if self.depth_calls > 60:
            return False
        self.depth_calls += 1
        try:
            ok = True
            for u, v in zip(x.a, y.a):
                if u is v:
                    continue
                if not self.same(u, v) and not (x.d[0] in ("gt0",)):
                    ok = False
                    break
                if self.eq(u, v).status != "proved":
                    ok = False
                    break
        finally:
            self.depth_calls -= 1
        self.cache[k] = Result("proved" if ok else "unknown", "congruence")
        return ok

    # ---- sweeping
    def sweep(self, t1, t2):
        """Bottom up merging of the sums and products of t1 which agree with one of t2"""
        n2 = tm.topo([t2])
        s2 = set(n2)
        n1 = [n for n in tm.topo([t1])]
        own = [n for n in n1 if n not in s2]
        if len(own) > 60000:
            return t1, t2
        ex = [n for n in n2 if n not in set(n1) and n.op in (ADD, MUL, APP)]
        if not ex:
            return t1, t2
        keys = {}
        for n in ex:
            keys.setdefault(self.sig(n), []).append(n)
        cur = {}
        tried = 0
        for n in n1:
            if n in s2:
                cur[n] = n
                continue
            m = tm.remake(n, [cur[x] for x in n.a])
            if m in s2:
                cur[n] = m
                continue
            cur[n] = m
            if m.op not in (ADD, MUL, APP) or self.late() or tried > 4000:
                continue
            for c in self.near(keys, m):
                if c is m or not self.same(m, c):
                    continue
                if isb(m) != isb(c):
                    continue
                tried += 1
                if m.op == APP and c.op == APP and m.d == c.d and len(m.a) == len(c.a):
                    if self.app_eq(m, c):
                        cur[n] = c
                        self.stats.merged += 1
                        break
                if m.op != APP or c.op != APP:
                    if n is t1 and c is t2:
                        continue
                    r = self.local_cheap(m, c)
                    if r.status == "proved":
                        cur[n] = c
                        self.stats.merged += 1
                        break
        return cur[t1], t2

    def local_cheap(self, a, b):
        for depth, cap, op in ((3, 500, True), (0, 1500, False), (1, 1500, False), (2, 3000, False)):
            try:
                N = ratio_diff(a, b, depth, cap, opaque=op)
            except (TooBig, RecursionError, OverflowError):
                if op:
                    continue
                return Result("unknown")
            if not N:
                self.stats.expansions += 1
                return Result("proved", "expansion")
        return Result("unknown")

    def sig(self, n):
        v = float(self.val(n)[0])
        if v == 0 or v != v or v in (math.inf, -math.inf):
            return (0, 0)
        m, e = math.frexp(v)
        return (round(m * 1e6), e)

    def near(self, keys, m):
        k = self.sig(m)
        out = []
        for d in (0, 1, -1):
            out += keys.get((k[0] + d, k[1]), [])
        return out

    # ---- case splitting
    def conds(self, ts):
        """Conditions in the terms, innermost first"""
        out = []
        seen = set()
        for n in tm.topo(ts):
            if n.op == APP:
                f = n.d[0]
                if f == "relu":
                    c = tm.gt0(n.a[0])
                elif f in ("gt0", "eq0"):
                    c = n
                else:
                    continue
                while c.op == APP and c.d[0] == "not":
                    c = c.a[0]
                if c.op == APP and c.d[0] in ("gt0", "eq0") and c not in seen:
                    seen.add(c)
                    out.append(c)
        return out

    def assign(self, ts, c, val):
        """The terms in the case where condition c is val"""
        mp = {}
        for n in tm.topo(ts):
            if n is c:
                mp[n] = tm.TRUE if val else tm.FALSE
            elif n.op == APP and n.d[0] == "relu":
                g = tm.gt0(n.a[0])
                if g is c:
                    mp[n] = n.a[0] if val else tm.ZERO
                elif g.op == APP and g.d[0] == "not" and g.a[0] is c:
                    mp[n] = tm.ZERO if val else n.a[0]
        memo = {}
        return [tm.rebuild(t, mp, memo) for t in ts]

    def split(self, a, b, path, depth=0):
        if a is b:
            return Result("proved", "cases")
        if self.late() or depth > 40 or self.stats.splits > 3000:
            return Result("unknown", "budget")
        if depth:
            a, b = self.unify_path(a, b)
            if a is b:
                return Result("proved", "cases")
        cs = self.conds([a, b])
        # only conditions which do not depend on other conditions
        free = [c for c in cs if not any(x in cs for x in self.conds(list(c.a)) if x is not c)]
        if not free:
            return self.leaf(a, b, path)
        # decide conditions implied by the path first
        c = self.pick(free, a, b)
        self.stats.splits += 1
        worst = Result("proved", "cases")
        for val in (True, False):
            lit = c if val else tm.bnot(c)
            p2 = path + [lit]
            st, mod = self.check([self.assume] + p2, timeout=min(2.0, self.timeout))
            if st == "unsat":
                continue
            a2, b2 = self.assign([a, b], c, val)
            z = self.vanishing(p2)
            if z is not None:
                memo = {}
                a2, b2 = [tm.rebuild(t, z, memo) for t in (a2, b2)]
            r = self.split(a2, b2, p2, depth + 1)
            if r.status == "cex":
                return r
            if r.status == "unknown":
                worst = r
        return worst

    def vanishing(self, path):
        """A variable which the last condition of the path forces to a value"""
        c = path[-1]
        d = None
        if c.d[0] == "eq0":
            d = c.a[0]
        elif c.d[0] == "not" and c.a[0].d[0] == "gt0":
            d = c.a[0].a[0]
            n = tm.bnot(tm.gt0(tm.neg(d)))
            if n not in path:
                return None
        if d is None:
            return None
        if d.op == VAR:
            return {d: tm.ZERO}
        if d.op == ADD:
            cs, k = d.d
            for v, q in zip(d.a, cs):
                if v.op == VAR:
                    rest = tm.lin([(-c2 / q, x) for x, c2 in zip(d.a, cs) if x is not v], -k / q)
                    if v not in tm.topo([rest]):
                        return {v: rest}
        return None

    def unify_path(self, a, b):
        # congruence without simulation (the points may not satisfy the path)
        for _ in range(2):
            A, B = set(self.atoms(a)), set(self.atoms(b))
            oa, ob = A - B, B - A
            mp = {}
            for x in oa:
                for y in ob:
                    if x.d == y.d and len(x.a) == len(y.a) and x.d[0] in ("exp", "log", "sin", "cos", "sinh", "cosh", "uf", "interp", "interp_slope"):
                        ok = True
                        for u, v in zip(x.a, y.a):
                            if u is v:
                                continue
                            try:
                                if ratio_diff(u, v, 2, 2000):
                                    ok = False
                                    break
                            except (TooBig, OverflowError):
                                ok = False
                                break
                        if ok:
                            mp[x] = y
                            break
            if not mp:
                break
            a2 = tm.rebuild(a, mp)
            if a2 is a:
                break
            a = a2
            if a is b:
                break
        return a, b

    def pick(self, free, a, b):
        return free[0]

    def leaf(self, a, b, path):
        goal = self.goal_atol if self.depth_calls == 0 else 0.0
        if isb(a) or isb(b):
            st, m = self.check_raw(a, b, path)
            if st == "unsat":
                return Result("proved", "solver")
            return Result("cex" if st == "sat" else "unknown", "leaf", m)
        for depth, cap in ((0, 4000), (2, 12000), (6, 20000)):
            try:
                if not ratio_diff(a, b, depth, cap, 0.1 * goal):
                    self.stats.expansions += 1
                    r = self.confirm(a, b, depth, cap, goal)
                    if r.status == "proved":
                        return r
            except (TooBig, RecursionError, OverflowError):
                break
        st, m = self.check_raw(a, b, path, goal)
        if st == "unsat":
            return Result("proved", "solver")
        if st == "sat":
            return Result("cex", "solver model", m)
        return Result("unknown", "leaf")

    # ---- claims
    def holds(self, b, path=()):
        if b.op == NUM:
            return Result("proved" if b.d else "cex", "constant")
        v = self.val(b)
        asv = self.val(self.assume) if self.assume.op != NUM else 1.0
        if ((v == 0) & (np.broadcast_to(asv, v.shape) != 0)).any() and not path:
            return Result("cex", "simulation")
        st, m = self.check([self.assume, tm.bnot(b)] + list(path))
        if st == "unsat":
            return Result("proved", "solver")
        if st == "sat":
            # the abstraction of transcendental functions may be too coarse
            r = self.holds_split(b, list(path))
            if r.status == "proved":
                return r
            return Result("cex", "solver model", m)
        return self.holds_split(b, list(path))

    def holds_split(self, b, path, depth=0):
        if b.op == NUM:
            if b.d:
                return Result("proved", "cases")
            st, m = self.check([self.assume] + path)
            if st == "unsat":
                return Result("proved", "cases")
            return Result("cex" if st == "sat" else "unknown", "cases", m)
        if self.late() or depth > 30 or self.stats.splits > 3000:
            return Result("unknown", "budget")
        if b.d[0] == "and":
            worst = Result("proved", "cases")
            for x in b.a:
                r = self.holds_split(x, path, depth + 1)
                if r.status == "cex":
                    return r
                if r.status != "proved":
                    worst = r
            return worst
        if path or depth:
            st, m = self.check([self.assume, tm.bnot(b)] + path)
            if st == "unsat":
                return Result("proved", "solver")
        else:
            st, m = "unknown", None
        cs = self.conds([b])
        inner = [c for c in cs if c is not b and tm.bnot(c) is not b and c is not (b.a[0] if b.d[0] == "not" else None)]
        free = [c for c in inner if not any(x is not c for x in self.conds(list(c.a)))]
        if not free:
            if st == "sat":
                return Result("cex", "solver model", m)
            return Result("unknown", "claim")
        c = free[0]
        self.stats.splits += 1
        worst = Result("proved", "cases")
        for val in (True, False):
            p2 = path + [c if val else tm.bnot(c)]
            st, _ = self.check([self.assume] + p2, timeout=min(2.0, self.timeout))
            if st == "unsat":
                continue
            (b2,) = self.assign([b], c, val)
            r = self.holds_split(b2, p2, depth + 1)
            if r.status == "cex":
                return r
            if r.status != "proved":
                worst = r
        return worst


def isb(t):
    return t.isb


def _zval(v):
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    except Exception:
        try:
            return float(v.as_decimal(17).rstrip("?"))
        except Exception:
            return 0.0
