"""Hash-consed symbolic terms over the reals, in a light normal form.

A term is one of
  NUM   a constant
  VAR   an input of the obligation, with an interval
  ADD   const + sum of coefficient * monomial
  MUL   product of bases raised to constant exponents (a monomial)
  APP   anything else: exp, log, sin, uninterpreted functions, ite, relu, gt0, ...

The normal form only uses identities which hold on the domain of definition of the
expression (commutativity, exp/log/power rules for positive bases, parity of
sin/cos, max/min/abs through relu).  It does not distribute products over sums: this
is left to the equivalence prover in smt.py, which has a solver decide.
"""
import math

NUM, VAR, ADD, MUL, APP = range(5)
OPN = ["NUM", "VAR", "ADD", "MUL", "APP"]
INF = math.inf
REL = 1e-12


class T:
    __slots__ = ("op", "a", "d", "id", "lo", "hi", "fin", "isb")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


class Store:
    def __init__(self):
        self.tab = {}
        self.n = 0
        self.cst = {}
        self.prim = {}
        self.vars = {}
        self.uf = {}  # name -> (numpy function, lo, hi)
        self.axioms = []  # boolean terms which hold by the contract of a stub


S = Store()


def reset():
    global S
    S.__init__()
    global ZERO, ONE, TRUE, FALSE
    ZERO = num(0.0)
    ONE = num(1.0)
    TRUE, FALSE = ONE, ZERO


def canon(c):
    """One representative for all the floats which differ by rounding only."""
    if c == 0.0 or c != c or c in (INF, -INF):
        return 0.0 if c == 0.0 else c
    m, e = math.frexp(c)
    if abs(c) < 1e-30:
        # an underflowing exponential: the rounding of its exponent is amplified
        REL = 1e-9
    else:
        REL = 1e-12
    k = round(m / REL)
    t = S.cst
    r = t.get((k, e))
    if r is not None:
        return r
    for k2 in (k + 1, k - 1):
        r = t.get((k2, e))
        if r is not None and abs(r - c) <= REL * abs(c):
            return r
    # rounding across a power of two
    if abs(abs(m) - 0.5) < 2 * REL or abs(abs(m) - 1.0) < 2 * REL:
        v = math.ldexp(1.0 if m > 0 else -1.0, e if abs(m) > 0.75 else e - 1)
        if abs(v - c) <= REL * abs(c):
            c = v
            m, e = math.frexp(c)
            k = round(m / REL)
            r = t.get((k, e))
            if r is not None:
                return r
    # prefer integers
    ri = round(c) if abs(c) < 1e15 else None
    if ri is not None and ri != 0 and abs(ri - c) <= REL * abs(c):
        c = float(ri)
    t[(k, e)] = c
    return c


def _mk(op, a, d, lo=-INF, hi=INF, fin=False, isb=False):
    key = (op, d) + tuple(x.id for x in a)
    t = S.tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.d = op, a, d
        t.id = S.n
        S.n += 1
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        t.lo, t.hi, t.fin, t.isb = lo, hi, fin, isb
        S.tab[key] = t
    return t


def num(c):
    c = canon(float(c))
    return _mk(NUM, (), c, c, c, True)


def var(name, lo=-INF, hi=INF):
    t = _mk(VAR, (), name, lo, hi)
    S.vars[name] = t
    return t


def isnum(t):
    return t.op == NUM


# ---------------------------------------------------------------- sums
def _imul(l1, h1, l2, h2):
    def p(x, y):
        return 0.0 if x == 0 or y == 0 else x * y

    v = (p(l1, l2), p(l1, h2), p(h1, l2), p(h1, h2))
    return min(v), max(v)


def lin(pairs, const=0.0):
    """const + sum c*t"""
    big = None
    if len(pairs) <= 8:
        for c, t in pairs:
            if t.op == ADD and c == 1.0 and len(t.a) > 16:
                if big is None or len(t.a) > len(big.a):
                    big = t
        if big is not None:
            return _linbig(big, pairs, const)
    acc = {}
    mag = {}
    cm = abs(const)
    for c, t in pairs:
        if c == 0.0:
            continue
        op = t.op
        if op == NUM:
            v = c * t.d
            const += v
            if abs(v) > cm:
                cm = abs(v)
        elif op == ADD:
            cs, k = t.d
            if k != 0.0:
                v = c * k
                const += v
                if abs(v) > cm:
                    cm = abs(v)
            for m, c2 in zip(t.a, cs):
                v = c * c2
                if m in acc:
                    acc[m] += v
                    if abs(v) > mag[m]:
                        mag[m] = abs(v)
                else:
                    acc[m] = v
                    mag[m] = abs(v)
        else:
            if t in acc:
                acc[t] += c
                if abs(c) > mag[t]:
                    mag[t] = abs(c)
            else:
                acc[t] = c
                mag[t] = abs(c)
    if const != const:
        return _mk(NUM, (), float("nan"))
    if abs(const) <= 4e-13 * cm:
        const = 0.0
    items = [
        (m, canon(c)) for m, c in acc.items() if abs(c) > 4e-13 * mag[m]
    ]
    if not items:
        return num(const)
    const = canon(const)
    if len(items) == 1 and const == 0.0 and items[0][1] == 1.0:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    lo = hi = const
    sl = abs(const)
    for m, c in items:
        if c > 0:
            x, y = c * m.lo, c * m.hi
        else:
            x, y = c * m.hi, c * m.lo
        lo += x
        hi += y
        if abs(x) < INF:
            sl += abs(x)
        if abs(y) < INF:
            sl += abs(y)
    if len(items) > 1 or const != 0:
        sl *= 1e-14
        lo, hi = (lo - sl if lo != 0 or const != 0 else lo), hi + sl
        if lo < 0 and lo > -2.1 * sl and _allpos(items, const):
            lo = 0.0
    return _mk(ADD, tuple(m for m, _ in items), (tuple(c for _, c in items), const), lo, hi)


def _linbig(big, pairs, const):
    """big + const + sum c*t, sharing the work done for a long sum"""
    used = False
    rest = []
    for c, t in pairs:
        if t is big and c == 1.0 and not used:
            used = True
        else:
            rest.append((c, t))
    r = lin(rest, const)
    if r.op == NUM:
        rm, rc, rk = (), (), r.d
    elif r.op == ADD:
        rm, (rc, rk) = r.a, r.d
    else:
        rm, rc, rk = (r,), (1.0,), 0.0
    cs, k = big.d
    acc = dict(zip(big.a, cs))
    clash = False
    for m, c in zip(rm, rc):
        o = acc.get(m)
        if o is None:
            acc[m] = c
        else:
            clash = True
            v = o + c
            if abs(v) <= 4e-13 * max(abs(o), abs(c)):
                del acc[m]
            else:
                acc[m] = canon(v)
    nk = k + rk
    if abs(nk) <= 4e-13 * max(abs(k), abs(rk)):
        nk = 0.0
    nk = canon(nk)
    if not clash and nk == k:
        lo, hi = big.lo + r.lo - rk, big.hi + r.hi - rk
        sl = 1e-14 * (abs(lo) if abs(lo) < INF else 0.0)
        if not (big.lo >= 0 and r.lo - rk >= 0):
            lo -= sl
        items = sorted(acc.items(), key=_bykey)
        return _mk(
            ADD, tuple([m for m, _ in items]), (tuple([c for _, c in items]), nk), lo, hi
        )
    return lin([(c, m) for m, c in acc.items()], nk)


def _bykey(x):
    return x[0].id


def _allpos(items, const):
    if const < 0:
        return False
    for m, c in items:
        if c > 0 and m.lo < 0 or c < 0 and m.hi > 0:
            return False
    return True


def add(*ts):
    return lin([(1.0, t) for t in ts])


def sub(a, b):
    return lin([(1.0, a), (-1.0, b)])


def neg(a):
    return lin([(-1.0, a)])


def scale(c, t):
    return lin([(float(c), t)])


def lead(t):
    """Leading coefficient of a sum"""
    return t.d[0][0]


def split_coef(t):
    """t = c * m with m not a scaled single monomial"""
    if t.op == NUM:
        return t.d, ONE
    if t.op == ADD and len(t.a) == 1 and t.d[1] == 0.0:
        return t.d[0][0], t.a[0]
    return 1.0, t


def primitive(t, signed=True):
    """t = s * p with leading coefficient of p one (or +-1)"""
    if t.op != ADD:
        return 1.0, t
    s = t.d[0][0]
    if not signed:
        s = abs(s)
    if s == 1.0:
        return 1.0, t
    r = S.prim.get((t.id, s))
    if r is None:
        r = S.prim[(t.id, s)] = (s, lin([(1.0 / s, t)]))
    return r


# ---------------------------------------------------------------- products
def _pint(e):
    return e == int(e) if abs(e) < 1e9 else False


def _fpow(c, e):
    try:
        return c**e
    except ZeroDivisionError:
        return INF if c == 0 else float("nan")
    except OverflowError:
        return INF


class Undefined(Exception):
    pass


def mulc(factors):
    """Product of t**e: returns (coefficient, monomial)."""
    coef = 1.0
    acc = {}
    earg = []
    stack = list(factors)
    while stack:
        t, e = stack.pop()
        if e == 0:
            continue
        op = t.op
        if op == NUM:
            v = t.d
            if v < 0 and not _pint(e):
                return float("nan"), ONE
            coef *= _fpow(v, int(e) if _pint(e) else e)
        elif op == ADD:
            cs, k = t.d
            if len(t.a) == 1 and k == 0.0:
                c = cs[0]
                if c > 0 or _pint(e):
                    coef *= _fpow(c, int(e) if _pint(e) else e)
                    stack.append((t.a[0], e))
                else:
                    coef *= _fpow(-c, e)
                    b = lin([(-1.0, t.a[0])])
                    acc[b] = acc.get(b, 0) + e
            else:
                s, p = primitive(t, signed=_pint(e))
                if s != 1.0:
                    coef *= _fpow(s, int(e) if _pint(e) else e)
                    if p.op != ADD:
                        stack.append((p, e))
                        continue
                acc[p] = acc.get(p, 0) + e
        elif op == MUL:
            if _pint(e):
                for b, e2 in zip(t.a, t.d):
                    stack.append((b, e2 * e))
            else:
                rest = []
                for b, e2 in zip(t.a, t.d):
                    if b.lo > 0 or (b.lo >= 0):
                        stack.append((b, e2 * e))
                    else:
                        rest.append((b, e2))
                if rest:
                    if len(rest) == 1 and not (_pint(rest[0][1]) and rest[0][1] % 2 == 0):
                        stack.append((rest[0][0], rest[0][1] * e))
                    else:
                        c0, b = mulc(rest)
                        acc[b] = acc.get(b, 0) + e
        elif op == APP and t.d[0] == "exp":
            earg.append((e, t.a[0]))
        else:
            acc[t] = acc.get(t, 0) + e
    if earg:
        A = lin(earg)
        ec, efac, E = _expsplit(A)
        coef *= ec
        for b, e in efac:
            # b is the argument of a log: positive
            for b2, e2 in _flat(b, e):
                if b2 is None:
                    coef *= e2
                else:
                    acc[b2] = acc.get(b2, 0) + e2
        if E is not None:
            acc[E] = acc.get(E, 0) + 1
    again = []
    out = {}
    for b, e in acc.items():
        if abs(e) < 1e-13:
            continue
        if not isinstance(e, int):
            e = canon(float(e))
            if _pint(e):
                e = int(e)
        if b.op == MUL and _pint(e):
            again.append((b, e))
        elif b.op == ADD and len(b.a) == 1 and b.d[1] == 0 and _pint(e):
            again.append((b, e))
        else:
            out[b] = e
    if again:
        c2, m2 = mulc(list(out.items()) + again)
        return coef * c2, m2
    if not out:
        return coef, ONE
    items = sorted(out.items(), key=lambda x: x[0].id)
    if len(items) == 1 and items[0][1] == 1:
        b = items[0][0]
        if b.op == ADD:
            return coef, b
        return coef, b
    lo, hi = 1.0, 1.0
    for b, e in items:
        l, h = _ipow(b.lo, b.hi, e)
        lo, hi = _imul(lo, hi, l, h)
    return coef, _mk(MUL, tuple(b for b, _ in items), tuple(e for _, e in items), lo, hi)


def _flat(b, e):
    """b**e for b>0 as a list of (base, exponent), (None, coefficient)"""
    if b.op == NUM:
        return [(None, _fpow(b.d, e))]
    if b.op == MUL and all(x.lo >= 0 for x in b.a):
        return [y for x, e2 in zip(b.a, b.d) for y in _flat(x, e * e2)]
    if b.op == ADD:
        s, p = primitive(b, signed=False)
        if s != 1.0:
            return [(None, _fpow(s, e))] + _flat(p, e)
    return [(b, e)]


def _ipow(lo, hi, e):
    if e == 1:
        return lo, hi
    if _pint(e):
        e = int(e)
        if e > 0:
            if e % 2 == 1 or lo >= 0:
                return _fp(lo, e), _fp(hi, e)
            if hi <= 0:
                return _fp(hi, e), _fp(lo, e)
            return 0.0, max(_fp(lo, e), _fp(hi, e))
        if lo > 0:
            return _fp(hi, e), _fp(lo, e)
        if hi < 0:
            l, h = _fp(lo, e), _fp(hi, e)
            return min(l, h), max(l, h)
        if e % 2 == 0:
            return 0.0, INF
        if lo >= 0:
            return 0.0, INF
        return -INF, INF
    lo = max(lo, 0.0)
    hi = max(hi, 0.0)
    if e > 0:
        return _fp(lo, e), _fp(hi, e)
    return (_fp(hi, e) if hi < INF else 0.0), (_fp(lo, e) if lo > 0 else INF)


def _fp(x, e):
    if x in (INF, -INF):
        if e < 0:
            return 0.0
        return INF if x > 0 or (e % 2 == 0) else -INF
    try:
        return float(x) ** e
    except OverflowError:
        return INF if x > 0 or e % 2 == 0 else -INF
    except ZeroDivisionError:
        return INF


def _wrap(c, m):
    if c != c:
        return _mk(NUM, (), float("nan"))
    if c == 0.0:
        return num(0.0)
    return lin([(c, m)])


def prod(factors):
    c, m = mulc(factors)
    return _wrap(c, m)


def mul(*ts):
    return prod([(t, 1) for t in ts])


def div(a, b):
    return prod([(a, 1), (b, -1)])


def powc(t, e):
    if _pint(e):
        e = int(e)
    if t.op == APP and t.fin and t.d[0] == "ite" and _pint(e):
        return ite(t.a[0], powc(t.a[1], e), powc(t.a[2], e))
    return prod([(t, e)])


def power(b, e):
    if e.op == NUM:
        return powc(b, e.d)
    if b.op == NUM:
        if b.d == 0:
            return ZERO
        return exp(scale(math.log(b.d), e))
    return exp(mul(e, log(b)))


def sqrt(t):
    return powc(t, 0.5)


# ---------------------------------------------------------------- exp/log
def _haslog(t):
    if t.op == APP:
        return t.d[0] == "log"
    return t.op == ADD and len(t.a) <= 4 and all(m.op == APP and m.d[0] == "log" for m in t.a)


def _distribute(A):
    """Products of a sum and of logarithms, multiplied out: exp((n - 1) log k) is exp(n log k) / k"""
    if A.op == MUL:
        pairs, k = [(1.0, A)], 0.0
    elif A.op == ADD and len(A.a) <= 8:
        pairs, k = list(zip(A.d[0], A.a)), A.d[1]
    else:
        return A
    out = []
    hit = False
    for c, m in pairs:
        if m.op == MUL and any(_haslog(b) and e == 1 for b, e in zip(m.a, m.d)):
            sums = [b for b, e in zip(m.a, m.d) if e == 1 and b.op == ADD and len(b.a) <= 6]
            if sums:
                rest = prod([(b, e) for b, e in zip(m.a, m.d) if not (e == 1 and b.op == ADD and len(b.a) <= 6)])
                parts = [(c, rest)]
                for s in sums:
                    cs, k0 = s.d
                    parts = [(c1 * c2, mul(m1, m2)) for c1, m1 in parts for c2, m2 in list(zip(cs, s.a)) + ([(k0, ONE)] if k0 else [])]
                out += parts
                hit = True
                continue
        out.append((c, m))
    return lin(out, k) if hit else A


def _expsplit(A):
    """exp(A) = c * prod b**e * E"""
    A = _distribute(A)
    if A.op == NUM:
        try:
            return math.exp(A.d), [], None
        except OverflowError:
            return INF, [], None
    c = 1.0
    fac = []
    if A.op == ADD:
        cs, k = A.d
        rest = []
        if k != 0.0 and abs(k) < 300:
            c = math.exp(k)
            k = 0.0
        for m, c2 in zip(A.a, cs):
            if m.op == APP and m.d[0] == "log":
                fac.append((m.a[0], int(c2) if _pint(c2) else c2))
            elif abs(c2) * max(abs(m.lo), abs(m.hi)) < 1e-13:
                # rounding of an exponent that is zero
                continue
            else:
                rest.append((c2, m))
        R = lin(rest, k)
    elif A.op == APP and A.d[0] == "log":
        return 1.0, [(A.a[0], 1)], None
    else:
        R = A
    if R.op == NUM and R.d == 0.0:
        return c, fac, None
    lo = _fexp(R.lo)
    hi = _fexp(R.hi)
    return c, fac, _mk(APP, (R,), ("exp",), lo, hi)


def _fexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def exp(A):
    c, fac, E = _expsplit(A)
    f = list(fac)
    if E is None:
        return _wrap(*_mm(c, f))
    c2, m = mulc(f + [(E, 1)])
    return _wrap(c * c2, m)


def _mm(c, f):
    c2, m = mulc(f)
    return c * c2, m


def log(t):
    if t.op == NUM:
        if t.d <= 0:
            return num(-INF) if t.d == 0 else _mk(NUM, (), float("nan"))
        return num(math.log(t.d))
    if t.op == APP and t.d[0] == "exp":
        return t.a[0]
    if t.op == MUL:
        if all(b.lo >= 0 or (b.op == APP and b.d[0] == "exp") for b in t.a):
            return lin([(float(e), log(b)) for b, e in zip(t.a, t.d)])
    if t.op == ADD:
        s, p = primitive(t, signed=False)
        if s != 1.0:
            return lin([(1.0, log(p))], math.log(s))
    lo = math.log(t.lo) if 0 < t.lo < INF else (-INF if t.lo <= 0 else INF)
    hi = math.log(t.hi) if 0 < t.hi < INF else (INF if t.hi == INF else -INF)
    return _mk(APP, (t,), ("log",), lo, hi)


# ---------------------------------------------------------------- other functions
_ODD = {"sin", "sinh", "tanh", "tan", "asin", "atan", "asinh", "erf", "atanh"}
_EVEN = {"cos", "cosh"}
_MATH = {
    "sin": math.sin,
    "cos": math.cos,
    "tan": math.tan,
    "sinh": math.sinh,
    "cosh": math.cosh,
    "tanh": math.tanh,
    "asin": math.asin,
    "acos": math.acos,
    "atan": math.atan,
    "asinh": math.asinh,
    "acosh": math.acosh,
    "atanh": math.atanh,
    "erf": math.erf,
    "lgamma": math.lgamma,
}


def fun(name, t):
    if t.op == NUM:
        try:
            return num(_MATH[name](t.d))
        except (OverflowError, ValueError):
            return _mk(NUM, (), float("nan"))
    if name in _ODD or name in _EVEN:
        if t.op == ADD and lead(t) < 0:
            r = fun(name, neg(t))
            return neg(r) if name in _ODD else r
    lo, hi = -INF, INF
    if name in ("sin", "cos", "tanh", "erf"):
        lo, hi = -1.0, 1.0
    if name == "sin" and t.lo >= 0 and t.hi <= math.pi:
        lo = 0.0
    if name in ("sinh", "tanh", "atan", "asinh", "erf", "tan"):
        if name != "tan":
            if t.lo >= 0:
                lo = 0.0 if t.lo == 0 else min(_MATH[name](min(t.lo, 700)), 1e300)
            if t.hi <= 0:
                hi = 0.0
    if name == "cosh":
        lo = 1.0
    return _mk(APP, (t,), (name,), lo, hi)


def uf(name, args, lo=-INF, hi=INF):
    return _mk(APP, tuple(args), ("uf", name), lo, hi)


def app(d, args, lo=-INF, hi=INF):
    return _mk(APP, tuple(args), tuple(d), lo, hi)


# ---------------------------------------------------------------- booleans
def _hasexp(m):
    """A product of positive factors with an exponential"""
    f = False
    for b in m.a if m.op == MUL else (m,):
        if b.op == APP and b.d[0] == "exp":
            f = True
        elif b.lo <= 0:
            return False
    return f


def gt0(d):
    if d.op == NUM:
        return TRUE if d.d > 0 else FALSE
    if d.lo > 0:
        return TRUE
    if d.hi <= 0:
        return FALSE
    if d.fin:
        return _lift(gt0, d)
    if d.op == ADD:
        s, d = primitive(d, signed=False)
        if d.op == ADD and len(d.a) == 2 and d.d[1] == 0 and d.d[0][0] * d.d[0][1] < 0:
            if all(_hasexp(m) for m in d.a):
                # sign of p - q for positive p, q: compare the logarithms
                i = 0 if d.d[0][0] > 0 else 1
                p, q = d.a[i], d.a[1 - i]
                k = math.log(d.d[0][i]) - math.log(-d.d[0][1 - i])
                return gt0(lin([(1.0, log(p)), (-1.0, log(q))], k))
        if d.op == ADD and len(d.a) == 1 and d.d[1] * d.d[0][0] < 0 and _hasexp(d.a[0]):
            i = 1.0 if d.d[0][0] > 0 else -1.0
            return gt0(lin([(i, log(d.a[0]))], i * -math.log(-d.d[1] / d.d[0][0])))
        # single monomial: drop positive factors
    c, m = split_coef(d)
    if m.op == MUL:
        keep = []
        for b, e in zip(m.a, m.d):
            if b.lo > 0:
                continue
            keep.append((b, e))
        if len(keep) < len(m.a):
            return gt0(_wrap(*_mm(c, keep)))
        # 1/x has the sign of x
        if any(_pint(e) and e < 0 and e % 2 != 0 for e in m.d) and len(m.a) == 1:
            return gt0(_wrap(*_mm(c, [(m.a[0], 1)])))
    if d.op == APP and d.d[0] == "relu":
        return gt0(d.a[0])
    return _mk(APP, (d,), ("gt0",), 0, 1, isb=True)


def eq0(d):
    if d.op == NUM:
        return TRUE if d.d == 0 else FALSE
    if d.lo > 0 or d.hi < 0:
        return FALSE
    if d.fin:
        return _lift(eq0, d)
    if d.op == ADD:
        s, d = primitive(d)
    if d.op == MUL:
        keep = [(b, e) for b, e in zip(d.a, d.d) if not (b.lo > 0 or b.hi < 0)]
        if len(keep) < len(d.a):
            return eq0(_wrap(*_mm(1.0, keep)))
    return _mk(APP, (d,), ("eq0",), 0, 1, isb=True)


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return bnot(gt0(sub(a, b)))


def eq(a, b):
    return eq0(sub(a, b))


def bnot(b):
    if b.op == NUM:
        return FALSE if b.d else TRUE
    if b.d[0] == "not":
        return b.a[0]
    return _mk(APP, (b,), ("not",), 0, 1, isb=True)


def band(*bs):
    s = set()
    for b in bs:
        if b.op == NUM:
            if not b.d:
                return FALSE
            continue
        if b.d[0] == "and":
            s.update(b.a)
        else:
            s.add(b)
    for b in s:
        if bnot(b) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    return _mk(APP, tuple(sorted(s)), ("and",), 0, 1, isb=True)


def bor(*bs):
    return bnot(band(*[bnot(b) for b in bs]))


def isbool(t):
    return t.isb or t is TRUE or t is FALSE


def ite(c, a, b):
    if c.op == NUM:
        return a if c.d else b
    if a is b:
        return a
    if c.d[0] == "not":
        return ite(c.a[0], b, a)
    if a.op == APP and a.d[0] == "ite" and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == APP and b.d[0] == "ite" and b.a[0] is c:
        return ite(c, a, b.a[2])
    if (a.isb or b.isb) and isbool(a) and isbool(b):
        return bor(band(c, a), band(bnot(c), b))
    if c.d[0] == "gt0" and not (a.fin and b.fin):
        d = c.a[0]
        df = sub(a, b)
        k = _ratio(df, d)
        if k is not None:
            r = relu(d)
            return lin([(1.0, b), (k, r)])
    return _mk(
        APP, (c, a, b), ("ite",), min(a.lo, b.lo), max(a.hi, b.hi), a.fin and b.fin
    )


def _ratio(x, d):
    """k such that x = k*d"""
    if x.op == ADD and d.op == ADD:
        if x.a != d.a:
            return None
        k = lead(x) / lead(d)
        r = lin([(1.0, x), (-k, d)])
        return k if r.op == NUM and r.d == 0 else None
    c, m = split_coef(x)
    c2, m2 = split_coef(d)
    if m is m2 and m is not ONE:
        return c / c2
    return None


def relu(d):
    if d.op == NUM:
        return d if d.d > 0 else ZERO
    if d.lo >= 0:
        return d
    if d.hi <= 0:
        return ZERO
    if d.op == ADD:
        s, p = primitive(d, signed=False)
        if s != 1.0:
            return scale(s, relu(p))
        if lead(d) < 0:
            r = lin([(1.0, relu(neg(d))), (1.0, d)])
            if r.op == ADD:
                r.lo = max(r.lo, 0.0)
                r.hi = min(r.hi, max(d.hi, 0.0))
            return r
    return _mk(APP, (d,), ("relu",), 0.0, max(d.hi, 0.0))


def _minmax_iv(t, lo, hi):
    if t.op != NUM:
        if lo > t.lo:
            t.lo = lo
        if hi < t.hi:
            t.hi = hi
    return t


def tmax(a, b):
    if a.lo >= b.hi:
        return a
    if b.lo >= a.hi:
        return b
    r = lin([(1.0, b), (1.0, relu(sub(a, b)))])
    return _minmax_iv(r, max(a.lo, b.lo), max(a.hi, b.hi))


def tmin(a, b):
    if a.lo >= b.hi:
        return b
    if b.lo >= a.hi:
        return a
    r = lin([(1.0, a), (-1.0, relu(sub(a, b)))])
    return _minmax_iv(r, min(a.lo, b.lo), min(a.hi, b.hi))


def tabs(a):
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    r = lin([(2.0, relu(a)), (-1.0, a)])
    return _minmax_iv(r, 0.0, max(abs(a.lo), abs(a.hi)))


def sign(a):
    if a.lo > 0:
        return ONE
    if a.hi < 0:
        return num(-1.0)
    return ite(gt0(a), ONE, ite(gt0(neg(a)), num(-1.0), ZERO))


def _lift(f, t):
    if t.op == NUM:
        return f(t)
    c, a, b = t.a
    return ite(c, _lift(f, a), _lift(f, b))


def fin_lift(f, *ts):
    """Apply f to numbers or to decision trees with numbers as leaves."""
    for i, t in enumerate(ts):
        if t.op != NUM:
            if not t.fin or t.op != APP:
                return None
            c, a, b = t.a
            x = fin_lift(f, *ts[:i], a, *ts[i + 1 :])
            y = fin_lift(f, *ts[:i], b, *ts[i + 1 :])
            if x is None or y is None:
                return None
            return ite(c, x, y)
    return f(*ts)


# ---------------------------------------------------------------- traversal
def topo(roots, stop=None):
    """All the nodes below the roots, arguments first."""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        stack.append((t, True))
        if stop is not None and t in stop:
            continue
        for x in t.a:
            if x not in seen:
                stack.append((x, False))
    return out


def rebuild(t, sub_, memo=None):
    """Substitute subterms."""
    if memo is None:
        memo = {}
    for n in topo([t], stop=sub_):
        if n in memo:
            continue
        if n in sub_:
            memo[n] = sub_[n]
            continue
        memo[n] = remake(n, [memo[x] for x in n.a])
    return memo[t]


def remake(n, a):
    op = n.op
    if op in (NUM, VAR) or all(x is y for x, y in zip(a, n.a)):
        return n
    if op == ADD:
        cs, k = n.d
        return lin(list(zip(cs, a)), k)
    if op == MUL:
        return prod(list(zip(a, n.d)))
    f = n.d[0]
    if f == "exp":
        return exp(a[0])
    if f == "log":
        return log(a[0])
    if f == "gt0":
        return gt0(a[0])
    if f == "eq0":
        return eq0(a[0])
    if f == "not":
        return bnot(a[0])
    if f == "and":
        return band(*a)
    if f == "ite":
        return ite(*a)
    if f == "relu":
        return relu(a[0])
    if f in _MATH:
        return fun(f, a[0])
    return _mk(APP, tuple(a), n.d, n.lo, n.hi)


def _close(d, e, tol):
    if isinstance(d, tuple):
        return isinstance(e, tuple) and len(d) == len(e) and all(_close(x, y, tol) for x, y in zip(d, e))
    if isinstance(d, float) or isinstance(e, float):
        try:
            return d == e or abs(d - e) <= tol * max(abs(d), abs(e))
        except TypeError:
            return False
    return d == e


def merge(L, R, tol=1e-9):
    """R with the nodes which differ from one of L by the rounding of constants only
    (canon() rounds to representatives, so that chains of products can end up with
    different ones) replaced by it"""
    left = topo(L)
    have = set(left)
    idx = {}
    for n in left:
        if n.a:
            idx.setdefault((n.op, n.a), []).append(n)
    cur = {}
    for n in topo(R):
        if n not in have:
            m = n if n.op in (NUM, VAR) else remake(n, [cur[x] for x in n.a])
            if m not in have and m.a:
                for c in idx.get((m.op, m.a), ()):
                    if m.isb == c.isb and _close(m.d, c.d, tol):
                        m = c
                        break
            cur[n] = m
        else:
            cur[n] = n
    return [cur[r] for r in R]


# ---------------------------------------------------------------- numeric evaluation
import numpy as np

try:
    from scipy.special import erf as _np_erf, gammaln as _np_lgamma
except Exception:  # pragma: no cover
    _np_erf = _np_lgamma = None

_NP = {
    "exp": np.exp,
    "log": np.log,
    "sin": np.sin,
    "cos": np.cos,
    "tan": np.tan,
    "sinh": np.sinh,
    "cosh": np.cosh,
    "tanh": np.tanh,
    "asin": np.arcsin,
    "acos": np.arccos,
    "atan": np.arctan,
    "asinh": np.arcsinh,
    "acosh": np.arccosh,
    "atanh": np.arctanh,
    "erf": _np_erf,
    "lgamma": _np_lgamma,
}


def np_interp(x, xp, fp):
    """Piecewise linear, extrapolating with the first and last segments; any
    monotonic grid. xp, fp: [n, M]; x: [M]"""
    n = xp.shape[0]
    up = xp[-1] > xp[0]
    cnt = np.where(up, (xp <= x).sum(0), (xp >= x).sum(0)) - 1
    i = np.clip(cnt, 0, n - 2)
    j = np.arange(xp.shape[1]) if xp.ndim > 1 else 0
    x0, x1, f0, f1 = xp[i, j], xp[i + 1, j], fp[i, j], fp[i + 1, j]
    return f0, f1, x0, x1


def _as2(lst, M):
    return np.stack([np.broadcast_to(v, (M,)) for v in lst])


def evaluate(roots, points, memo=None):
    """Values of the roots at the points {name: array[M]}"""
    if memo is None:
        memo = {}
    M = len(next(iter(points.values()))) if points else 1
    with np.errstate(all="ignore"):
        for t in topo(roots, stop=memo):
            if t in memo:
                continue
            memo[t] = _ev(t, memo, points, M)
    return [np.broadcast_to(memo[r], (M,)) for r in roots]


def _ev(t, memo, points, M):
    op = t.op
    if op == NUM:
        return np.float64(t.d)
    if op == VAR:
        return np.asarray(points[t.d], dtype=np.float64)
    if op == ADD:
        cs, k = t.d
        if len(t.a) > 40:
            # one product and a sum
            A = np.empty((len(t.a), M))
            for i, x in enumerate(t.a):
                A[i] = memo[x]
            return np.asarray(cs) @ A + k
        r = k
        for c, x in zip(cs, t.a):
            r = r + c * memo[x]
        return r
    if op == MUL:
        r = 1.0
        for b, e in zip(t.a, t.d):
            v = memo[b]
            if e == 1:
                r = r * v
            elif e == -1:
                r = r / v
            elif e == 0.5:
                r = r * np.sqrt(v)
            else:
                r = r * np.power(v, float(e))
        return r
    f = t.d[0]
    a = [memo[x] for x in t.a]
    if f in _NP:
        return _NP[f](a[0])
    if f == "gt0":
        return np.where(a[0] > 0, 1.0, 0.0)
    if f == "eq0":
        return np.where(a[0] == 0, 1.0, 0.0)
    if f == "not":
        return 1.0 - a[0]
    if f == "and":
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if f == "ite":
        return np.where(a[0] != 0, a[1], a[2])
    if f == "relu":
        return np.maximum(a[0], 0.0)
    if f == "uf":
        fn = S.uf[t.d[1]]
        return np.asarray(fn(*[np.broadcast_to(x, (M,)) for x in a]))
    if f == "interp_w":
        key = ("interp_w",) + t.a
        r = memo.get(key)
        if r is None:
            x = np.broadcast_to(memo[t.a[0]], (M,))
            X = _as2([memo[v] for v in t.a[1:]], M)
            cnt = np.where(X[-1] > X[0], (X <= x).sum(0), (X >= x).sum(0)) - 1
            i = np.clip(cnt, 0, len(X) - 2)
            j = np.arange(M)
            r = memo[key] = (i, (x - X[i, j]) / (X[i + 1, j] - X[i, j]))
        i, s = r
        return np.where(t.d[2] == i, 1.0 - s, np.where(t.d[2] == i + 1, s, 0.0))
    if f in ("interp", "interp_slope"):
        n = (len(a) - 1) // 2
        x = np.broadcast_to(a[0], (M,))
        f0, f1, x0, x1 = np_interp(x, _as2(a[1 : n + 1], M), _as2(a[n + 1 :], M))
        s = (f1 - f0) / (x1 - x0)
        return s if f == "interp_slope" else f0 + s * (x - x0)
    if f == "solve":
        i, n = t.d[1], t.d[2]
        A = np.moveaxis(_as2(a[: n * n], M).reshape(n, n, M), 2, 0)
        b = _as2(a[n * n :], M).T[..., None]
        out = np.empty(M)
        try:
            return np.linalg.solve(A, b)[:, i, 0]
        except np.linalg.LinAlgError:
            for m in range(M):
                try:
                    out[m] = np.linalg.solve(A[m], b[m])[i, 0]
                except np.linalg.LinAlgError:
                    out[m] = np.nan
            return out
    if f == "floor":
        return np.floor(a[0])
    if f == "round":
        return np.round(a[0])
    if f == "trunc":
        return np.trunc(a[0])
    raise NotImplementedError(f)


def show(t, depth=6):
    if t.op == NUM:
        return "%.6g" % t.d
    if t.op == VAR:
        return t.d
    if depth == 0:
        return "#%d" % t.id
    s = lambda x: show(x, depth - 1)
    if t.op == ADD:
        cs, k = t.d
        n = len(t.a)
        r = " + ".join(
            (s(m) if c == 1 else "%.6g*%s" % (c, s(m))) for m, c in list(zip(t.a, cs))[:8]
        )
        if n > 8:
            r += " + ...(%d)" % n
        return "(" + r + (" + %.6g" % k if k else "") + ")"
    if t.op == MUL:
        return "*".join(s(b) if e == 1 else "%s^%.6g" % (s(b), e) for b, e in zip(t.a, t.d))
    args = ", ".join(s(x) for x in t.a[:6]) + (", ..." if len(t.a) > 6 else "")
    return ":".join(map(str, t.d)) + "(" + args + ")"


reset()
