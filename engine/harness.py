"""Obligations: what is decided, how it is encoded, decided and replayed."""
import os

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
import itertools
import json
import math
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import jax  # noqa: E402

jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402

from . import prims, smt, symex  # noqa: E402
from . import terms as tm  # noqa: E402


class In:
    """A symbolic input: every value of the box (array of the given shape)"""

    def __init__(self, lo, hi, shape=(), special=()):
        self.lo, self.hi, self.shape = float(lo), float(hi), tuple(shape)
        self.special = tuple(special)

    def names(self, base):
        if self.shape == ():
            return [base]
        return [
            base + "[" + ",".join(map(str, i)) + "]"
            for i in itertools.product(*[range(n) for n in self.shape])
        ]

    def describe(self):
        return "[%g, %g]%s" % (self.lo, self.hi, ("^" + "x".join(map(str, self.shape))) if self.shape else "")


class Ob:
    """One obligation.

    kind equal: impl(**inputs) == spec(**inputs) for all inputs (pytrees of arrays)
    kind nonneg: every element of impl(**inputs) is >= 0 (> 0 with strict)
    kind raises: impl(**inputs) raises `exc` whatever the inputs
    """

    def __init__(
        self,
        name,
        inputs,
        impl,
        spec=None,
        claim="",
        kind="equal",
        assume=None,
        rtol=1e-7,
        atol=0.0,
        exc=None,
        stubs=("interp", "linalg"),
        pins=None,
        budget=150,
        tier="quick",
        strict=False,
        known=None,
        known_spec=None,
        shapes=True,
        eager=2,
        points=8,
        assume_inputs="",
    ):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def patches_of(ob):
    p = []
    if "interp" in ob.stubs:
        p += prims.interp_patches()
    if "linalg" in ob.stubs:
        p += prims.linalg_patches()
    for s in ob.stubs:
        if not isinstance(s, str):
            p += s()
    return p


# ------------------------------------------------------------------ values
def flat_names(ob):
    out = []
    for k, v in ob.inputs.items():
        out += v.names(k)
    return out


def assemble(ob, vals):
    """{flat name: float} -> {input: jnp array}"""
    r = {}
    for k, v in ob.inputs.items():
        a = np.array([vals[n] for n in v.names(k)], dtype=float).reshape(v.shape)
        r[k] = jnp.asarray(a)
    return r


def draw(ob, n, rng, special):
    pts = {}
    pool = {}
    for k, v in ob.inputs.items():
        sp = [v.lo, v.hi] + [c for c in (0.0, 1.0, -1.0) if v.lo <= c <= v.hi] + list(v.special)
        for nm in v.names(k):
            x = rng.uniform(v.lo, v.hi, n)
            if v.lo > 0 and v.hi / v.lo > 50:
                y = np.exp(rng.uniform(np.log(v.lo), np.log(v.hi), n))
                x = np.where(rng.random(n) < 0.6, y, x)
            if special:
                m = rng.random(n)
                x = np.where(m < special, np.asarray(sp)[rng.integers(0, len(sp), n)], x)
                prev = pool.get(k, [])
                if prev:
                    m = rng.random(n) < special / 3
                    x = np.where(m, prev[rng.integers(0, len(prev))], x)
            pool.setdefault(k, []).append(x)
            pts[nm] = x
    return pts


def sample(ob, n, rng, special=0.0):
    """n points of the domain which satisfy the assumption"""
    if ob.assume is None:
        return draw(ob, n, rng, special)
    keep = {k: [] for k in flat_names(ob)}
    got = 0
    f = jax.jit(jax.vmap(lambda d: jnp.all(jnp.asarray(ob.assume(**d)))))
    for _ in range(60):
        m = max(64, 4 * n)
        pts = draw(ob, m, rng, special)
        d = {
            k: jnp.asarray(np.stack([pts[x] for x in v.names(k)] or [np.zeros(m)], axis=-1)[:, : len(v.names(k))].reshape((m,) + v.shape))
            for k, v in ob.inputs.items()
        }
        ok = np.asarray(f(d))
        for k in keep:
            keep[k].append(pts[k][ok])
        got += int(ok.sum())
        if got >= n:
            break
    return {k: np.concatenate(v)[:n] for k, v in keep.items()}


def at(pts, i):
    return {k: float(v[i]) for k, v in pts.items()}


# ------------------------------------------------------------------ replays
def leaves(x):
    return [np.asarray(v, dtype=float) for v in jax.tree_util.tree_leaves(x)]


class Verdict:
    def __init__(self, bad, detail, out=None):
        self.bad = bad
        self.out = out
        self.detail = detail


def _short(x):
    x = np.asarray(x)
    if x.size > 12:
        return "%s... shape %s" % (np.array2string(x.ravel()[:12], precision=10), x.shape)
    return np.array2string(x, precision=12)


def replay(ob, vals, spec=None):
    """Run the real code, unpatched and eagerly, on concrete inputs"""
    spec = spec or ob.spec
    ins = assemble(ob, vals)
    if ob.assume is not None and not bool(jnp.all(jnp.asarray(ob.assume(**ins)))):
        return Verdict(False, "assumption not met")
    jax.clear_caches()
    if ob.kind == "raises":
        try:
            r = ob.impl(**ins)
        except Exception as ex:
            if isinstance(ex, ob.exc):
                return Verdict(False, "raised")
            return Verdict(True, "raised %s: %s instead of %s" % (type(ex).__name__, str(ex)[:300], ob.exc))
        return Verdict(True, "returned %s instead of raising" % _short(leaves(r)[0]))
    try:
        r = ob.impl(**ins)
        r = leaves(r)
    except Exception as ex:
        if ob.kind == "equal":
            spec(**ins)
        return Verdict(True, "raised %s: %s" % (type(ex).__name__, str(ex)[:500]))
    if ob.kind == "nonneg":
        for i, x in enumerate(r):
            bad = ~(x > -ob.atol) if ob.strict and ob.atol == 0 else ~(x >= -ob.atol)
            if np.any(bad):
                return Verdict(True, "claim %d: %s should be %s 0" % (i, _short(x), ">" if ob.strict else ">="))
        return Verdict(False, "", r)
    s = leaves(spec(**ins))
    if len(s) != len(r):
        return Verdict(True, "%d outputs instead of %d" % (len(r), len(s)))
    for i, (x, y) in enumerate(zip(r, s)):
        if x.shape != y.shape:
            if ob.shapes:
                return Verdict(True, "output %d: shape %s instead of %s" % (i, x.shape, y.shape))
            try:
                x, y = np.broadcast_arrays(x, y)
            except ValueError:
                return Verdict(True, "output %d: shape %s instead of %s" % (i, x.shape, y.shape))
        with np.errstate(all="ignore"):
            ok = np.abs(x - y) <= ob.rtol * np.maximum(np.abs(x), np.abs(y)) + ob.atol
        ok = ok | (x == y)
        # where the specification itself is not a number nothing is claimed
        ok = ok | ~np.isfinite(y)
        if not ok.all():
            j = np.argwhere(~ok)[0]
            return Verdict(
                True,
                "output %d at %s: %s instead of %s" % (i, tuple(int(q) for q in j), x[tuple(j)], y[tuple(j)]),
            )
    return Verdict(False, "", r)


# ------------------------------------------------------------------ encoding
class Encoded:
    def __init__(self, ob, pinned, rng):
        self.ob = ob
        self.pinned = pinned  # {flat name: value}
        sym, abst = {}, {}
        for k, v in ob.inputs.items():
            nm = v.names(k)
            o = np.empty(len(nm), dtype=object)
            for i, n in enumerate(nm):
                o[i] = tm.num(pinned[n]) if n in pinned else tm.var(n, v.lo, v.hi)
            o = o.reshape(v.shape)
            sym[k] = symex.settle(o, float)
            abst[k] = jax.ShapeDtypeStruct(v.shape, jnp.float64)
        self.sym, self.abst = sym, abst
        self.it = symex.Interp()

    def run(self, fn):
        ks = list(self.sym)
        g = lambda *a: fn(**dict(zip(ks, a)))
        r, _ = symex.encode(
            g,
            tuple(self.sym[k] for k in ks),
            tuple(self.abst[k] for k in ks),
            interp=self.it,
        )
        return r


def _struct_ok(a, b, shapes):
    if len(a) != len(b):
        return False
    return all(x.shape == y.shape for x, y in zip(a, b)) or not shapes


class Outcome:
    def __init__(self, status, detail="", vals=None):
        self.status = status
        self.detail = detail
        self.vals = vals


def attempt(ob, spec, pinned, rng, stats, info, deadline, log, thorough=False):
    """Decide the obligation with some inputs pinned. Outcome status: proved, violation,
    spurious, unsupported, unknown"""
    tm.reset()
    pat = patches_of(ob)
    try:
        with prims.patched(pat):
            enc = Encoded(ob, pinned, rng)
            ri = enc.run(ob.impl)
            if ob.kind == "equal":
                rs = enc.run(spec)
            else:
                rs = [((), None, None, tm.TRUE)]
            if ob.assume is not None:
                ra = enc.run(lambda **k: jnp.asarray(ob.assume(**k)))
                asm = []
                for dec, outs, ex, pc in ra:
                    if ex is not None:
                        raise ex
                    asm.append(tm.band(pc, *[_asb(t) for o in outs for t in o.ravel()]))
                assume = tm.bor(*asm) if len(asm) > 1 else asm[0]
            else:
                assume = tm.TRUE
    except (symex.Unsupported, prims.TooLarge, NotImplementedError, tm.Undefined) as ex:
        return Outcome("unsupported", "%s: %s" % (type(ex).__name__, str(ex)[:200]))
    info["functions"] |= enc.it.functions
    info["neqns"] += enc.it.neqns
    info["terms"] = max(info["terms"], tm.S.n)
    for k, v in enc.it.prims.items():
        info["prims"][k] = info["prims"].get(k, 0) + v
    names = [n for n in flat_names(ob)]

    def full(pts, n):
        d = dict(pts)
        for k, v in pinned.items():
            d[k] = np.full(n, v)
        return d

    K = ob.points
    base = full(sample(ob, K, rng), K)
    K = len(base[names[0]]) if names else 1
    if K == 0:
        return Outcome("unknown", "no point of the domain satisfies the assumption")
    cands = []

    # fidelity: the encoding evaluated where the real code ran
    for vals, real in info.get("ran", ()):
        if any(abs(vals[k] - v) > 0 for k, v in pinned.items()):
            continue
        pt = {k: np.array([v, v]) for k, v in vals.items()}
        for di, oi, ei, pi in ri:
            if oi is None:
                continue
            if pi is not None and pi.op != tm.NUM and not tm.evaluate([pi], pt)[0][0]:
                continue
            got = [np.array([float(z[0]) for z in tm.evaluate(list(o.ravel()), pt)]).reshape(o.shape) for o in oi]
            for x, y in zip(got, real):
                if x.shape != y.shape:
                    return Outcome("unsupported", "the encoding has shape %s where the code gives %s" % (x.shape, y.shape))
                with np.errstate(all="ignore"):
                    d = np.abs(x - y) <= 1e-6 * np.maximum(np.abs(x), np.abs(y)) + max(10 * ob.atol, 1e-9)
                if not (d | ~np.isfinite(y) | ~np.isfinite(x)).all():
                    return Outcome("unsupported", "unfaithful encoding: %s where the code gives %s" % (_short(x), _short(y)))
            info["fidelity"] += 1
            break

    def confirm(vals_list, why):
        """replay candidates on the real code"""
        for vals in vals_list[:6]:
            info["replays"] += 1
            v = replay(ob, vals, spec)
            if v.bad:
                return Outcome("violation", v.detail + " (" + why + ")", vals)
        return None

    worst = None
    # every pair of paths
    for di, oi, ei, pi in ri:
        for ds, os_, es, ps in rs:
            if es is not None:
                return Outcome("unsupported", "specification raised %r" % (es,))
            asm = assume
            for p in (pi, ps):
                if p is not None:
                    asm = tm.band(asm, p)
            P = smt.Prover(
                base,
                assume=asm,
                timeout=20.0 if thorough else 6.0,
                deadline=deadline,
                rtol=1e-8,
                cross=thorough,
                atol=ob.atol,
            )
            try:
                if ob.kind == "raises":
                    if ei is not None and isinstance(ei, ob.exc):
                        continue
                    c = confirm([at(base, i) for i in range(min(3, K))], "path %s" % (di,))
                    return c or Outcome("spurious", "does not raise %s" % (ob.exc,))
                if ei is not None:
                    c = confirm([at(base, i) for i in range(min(3, K))], "exception")
                    if c:
                        return c
                    return Outcome("unsupported", "raised while traced: %s %s" % (type(ei).__name__, str(ei)[:200]))
                # is this pair of paths possible? (the vacuity witness)
                st, mod = P.check([asm]) if asm.op != tm.NUM else (("sat" if asm.d else "unsat"), {})
                if st == "unsat":
                    info["dead_paths"] += 1
                    continue
                info["witnesses"] += 1
                if len(ri) > 1 or len(rs) > 1:
                    pts2 = restrict(P, ob, asm, full, rng, mod, base)
                    if pts2 is not None:
                        P.points = pts2
                        P.memo = {}
                o = decide(ob, P, oi, os_, full, rng, confirm, info, log, asm, thorough)
            finally:
                stats.add(P.stats.__dict__)
            if o.status == "violation":
                return o
            if o.status != "proved":
                worst = o
    return worst or Outcome("proved")


def _asb(t):
    if t.isb or t.op == tm.NUM:
        return t if t.isb else (tm.TRUE if t.d else tm.FALSE)
    return tm.bnot(tm.eq0(t))


def complete(ob, mod, base, i=0):
    """A full assignment from a model"""
    vals = {}
    for k, v in ob.inputs.items():
        for n in v.names(k):
            x = mod.get(n) if mod else None
            if x is None or not math.isfinite(x):
                x = float(base[n][i % len(base[n])])
            vals[n] = float(min(max(x, v.lo), v.hi))
    return vals


def restrict(P, ob, asm, full, rng, mod, base):
    """Points of the domain which satisfy the path condition"""
    pts = full(sample(ob, 2000, rng, 0.2), 2000) if ob.inputs else base
    if not pts:
        return None
    v = np.broadcast_to(tm.evaluate([asm], pts)[0], (len(next(iter(pts.values()))),))
    idx = np.nonzero(v)[0][:8]
    if len(idx):
        return {k: x[idx] for k, x in pts.items()}
    if mod is not None:
        vals = complete(ob, mod, base)
        return {k: np.array([x, x]) for k, x in vals.items()}
    return None


def mismatch(L, R, pts, ob, memo=None):
    """Indices of points where the terms differ beyond the tolerance of the claim"""
    M = len(next(iter(pts.values()))) if pts else 1
    memo = {}
    x = tm.evaluate(L, pts, memo)
    y = tm.evaluate(R, pts, memo)
    bad = np.zeros(M, bool)
    with np.errstate(all="ignore"):
        for a, b in zip(x, y):
            ok = np.abs(a - b) <= ob.rtol * np.maximum(np.abs(a), np.abs(b)) + ob.atol
            bad |= ~(ok | (a == b) | ~np.isfinite(b))
    return np.nonzero(bad)[0]


def decide(ob, P, oi, os_, full, rng, confirm, info, log, asm, thorough):
    base = P.points
    if ob.kind == "nonneg":
        L = [t for o in oi for t in o.ravel()]
        claims = [tm.gt0(t) if ob.strict else tm.le(tm.ZERO, t) for t in L]
    else:
        if not _struct_ok(oi, os_, ob.shapes):
            c = confirm([at(base, i) for i in range(2)], "shapes %s / %s" % ([o.shape for o in oi], [o.shape for o in os_]))
            return c or Outcome("spurious", "shapes")
        L, R = [], []
        for a, b in zip(oi, os_):
            if a.shape != b.shape:
                a, b = np.broadcast_arrays(a, b)
            L += list(a.ravel())
            R += list(b.ravel())
    info["outputs"] += len(L)
    # 1. simulation at many points, special ones included
    if ob.kind == "equal":
        pairs = []
        seen = set()
        for a, b in zip(L, R):
            if a is b:
                P.stats.identical += 1
                continue
            if (a, b) not in seen:
                seen.add((a, b))
                pairs.append((a, b))
        ident = [(a, b) for a, b in zip(L, R) if a is b]
        for a, b in ident[:4]:
            # the trivial query, for the record
            if P.size(a, 0) <= 1500:
                P.check_raw(a, b)
    else:
        pairs = [(c, None) for c in dict.fromkeys(claims) if not (c.op == tm.NUM and c.d)]
    if not pairs:
        return Outcome("proved", "identical")
    roots = [p[0] for p in pairs] + [p[1] for p in pairs if p[1] is not None]
    nodes = len(tm.topo(roots))
    M = int(max(64, min(4096 if not thorough else 16384, 3e7 / max(nodes, 1))))

    def sims(pts, why):
        pts = dict(pts)
        M = len(next(iter(pts.values()))) if pts else 1
        if asm.op != tm.NUM:
            v = np.broadcast_to(tm.evaluate([asm], pts)[0], (M,))
            idx = np.nonzero(v)[0]
            if not len(idx):
                return None
            pts = {k: x[idx] for k, x in pts.items()}
        info["simulated"] += len(next(iter(pts.values()))) if pts else 1
        if ob.kind == "equal":
            bad = mismatch([p[0] for p in pairs], [p[1] for p in pairs], pts, ob)
        else:
            v = tm.evaluate(L, pts)
            b = np.zeros(len(next(iter(pts.values()))), bool)
            for x in v:
                b |= ~((x > -ob.atol) if ob.strict and ob.atol == 0 else (x >= -ob.atol))
            bad = np.nonzero(b)[0]
        if not len(bad):
            return None
        pick = bad[:: max(1, len(bad) // 4)]
        c = confirm([at(pts, i) for i in pick], why)
        if c:
            return c
        info["spurious"] += 1
        return Outcome("spurious", "a mismatch of the encoding does not reproduce (%s)" % why)

    o = sims(base, "simulation")
    if o is None and ob.inputs:
        o = sims(full(sample(ob, M, rng, 0.35), M), "simulation")
    if o is not None:
        return o
    # 2. the solver
    if ob.kind == "equal":
        R = tm.merge([p[0] for p in pairs], [p[1] for p in pairs])
        pairs = list(dict.fromkeys((p[0], r) for p, r in zip(pairs, R)))
    unknown = None
    for a, b in pairs:
        r = P.eq(a, b) if ob.kind == "equal" else P.holds(a)
        info["how"][r.how or r.status] = info["how"].get(r.how or r.status, 0) + 1
        if r.status == "proved":
            continue
        if r.status == "cex":
            mods = [complete(ob, r.model, base, i) for i in range(4)] if r.model else []
            if mods:
                pts = {k: np.array([m[k] for m in mods]) for k in mods[0]}
                o = sims(pts, r.how)
                if o is not None and o.status == "violation":
                    return o
        unknown = Outcome("unknown", "%s %s" % (r.status, r.how))
        if P.late():
            break
    if unknown is None:
        return Outcome("proved")
    # 3. cover the conditions with models
    o = cover(ob, P, [p for pr in pairs for p in pr if p is not None], full, rng, sims, asm, base)
    return o or unknown


def cover(ob, P, roots, full, rng, sims, asm, base):
    """Solver models for each outcome of each condition in the terms"""
    cs = P.conds(roots)
    cs = [c for c in cs][:60]
    mods = []
    t0 = time.time()
    for c in cs:
        for lit in (c, tm.bnot(c)):
            if time.time() - t0 > 40:
                break
            v = P.val(lit)
            if (v != 0).any() and (v == 0).any():
                continue
            st, m = P.check([asm, lit], timeout=1.0)
            if st == "sat" and m:
                for i in range(4):
                    mods.append(complete(ob, m, base, i))
    if not mods:
        return None
    pts = {k: np.array([m[k] for m in mods]) for k in mods[0]}
    o = sims(pts, "solver model of a condition")
    return o if o is not None and o.status == "violation" else None


# ------------------------------------------------------------------ running
COSMO = ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa", "gamma")


def ladder(ob):
    """Sets of inputs to pin, from none to all but one"""
    yield ()
    if ob.pins is not None:
        for p in ob.pins:
            yield tuple(p)
        return
    ks = list(ob.inputs)
    cos = [k for k in ks if k in COSMO]
    rest = [k for k in ks if k not in COSMO]
    if cos and rest:
        yield tuple(cos)
        yield tuple(rest)
        if "Omega_k" in cos and len(cos) > 1:
            yield tuple(k for k in ks if k != "Omega_k")
    elif cos:
        for k in cos[:1] + cos[-3:]:
            yield tuple(x for x in cos if x != k)
    if 1 < len(rest):
        for k in rest[:5]:
            yield tuple(x for x in ks if x != k)


def run(ob, tier="quick", seed=1, prop="", log=print):
    t0 = time.time()
    rng = np.random.default_rng([seed, sum(map(ord, ob.name))])
    stats = smt.Stats()
    info = dict(
        functions=set(),
        neqns=0,
        terms=0,
        prims={},
        replays=0,
        witnesses=0,
        dead_paths=0,
        outputs=0,
        simulated=0,
        spurious=0,
        eager=0,
        fidelity=0,
        how={},
    )
    thorough = tier == "thorough"
    budget = ob.budget * (3 if thorough else 1)
    deadline = t0 + budget
    res = dict(name=ob.name, claim=ob.claim, kind=ob.kind, domain={k: v.describe() for k, v in ob.inputs.items()})

    def done(status, detail="", vals=None, **kw):
        info["functions"] = sorted(info["functions"])
        info.pop("ran", None)
        info["prims"] = dict(sorted(info["prims"].items()))
        res.update(status=status, detail=detail, inputs=vals, stats=stats.as_dict(), wall=round(time.time() - t0, 2), **info)
        res.update(kw)
        return res

    def main(spec):
        # the real code on a few points: fidelity of what is traced to what runs
        eag = []
        if ob.eager:
            pts = sample(ob, ob.eager, rng)
            if ob.inputs and len(next(iter(pts.values()))):
                for i in range(len(next(iter(pts.values())))):
                    eag.append(at(pts, i))
            elif not ob.inputs:
                eag.append({})
        for vals in eag:
            info["eager"] += 1
            v = replay(ob, vals, spec)
            if v.bad:
                return Outcome("violation", v.detail + " (first execution)", vals)
            if v.out is not None:
                info.setdefault("ran", []).append((vals, v.out))
        first = None
        proved = []
        for pin in ladder(ob):
            pv = {}
            if pin:
                if time.time() > t0 + 0.7 * budget:
                    break
                pts = sample(ob, 1, rng)
                for k in pin:
                    for n in ob.inputs[k].names(k):
                        pv[n] = float(pts[n][0])
            dl = deadline if not pin else min(deadline + 30, time.time() + 40)
            try:
                o = attempt(ob, spec, pv, rng, stats, info, dl, log, thorough)
            except smt.Disagreement as ex:
                o = Outcome("unknown", str(ex))
            except Exception as ex:
                log(traceback.format_exc()[-2500:])
                o = Outcome("unsupported", "%s: %s" % (type(ex).__name__, str(ex)[:200]))
            if o.status == "violation":
                return o
            if not pin:
                if o.status == "proved":
                    return o
                first = o
                log("  %s: %s, %s" % (ob.name, o.status, o.detail))
                continue
            if o.status == "proved":
                proved.append(pin)
        # what remains is execution only
        pts = sample(ob, 4 if proved else 10, rng, 0.3)
        for i in range(len(next(iter(pts.values()))) if pts else 1):
            vals = at(pts, i)
            info["replays"] += 1
            v = replay(ob, vals, spec)
            if v.bad:
                return Outcome("violation", v.detail + " (execution)", vals)
        if proved:
            return Outcome("reduced", "decided only with inputs pinned: %s; %s" % (["pinned " + ",".join(p) for p in proved], first.detail))
        return Outcome("inconclusive", first.status + ": " + first.detail)

    try:
        o = main(ob.spec)
        if o.status == "violation" and ob.known_spec is not None:
            first = o
            k = main(ob.known_spec)
            if k.status != "violation":
                return done("known", first.detail, first.vals, known=ob.known, known_decided=k.status)
            o = first
        return done(o.status, o.detail, o.vals)
    except Exception:
        return done("error", traceback.format_exc()[-3000:])
