"""C09 interpolating splines"""
import jax

from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Spline

from .common import *

KNOTS = {
    2: [0.3, 1.1],
    3: [-1.0, 0.2, 0.7],
    4: [0.0, 0.7, 1.1, 2.5],
    5: [-2.0, -0.5, 0.0, 1.3, 1.7],
    6: [0.1, 0.2, 0.5, 1.0, 1.1, 3.0],
    8: [-3.0, -1.7, -1.1, 0.4, 0.5, 1.9, 2.0, 5.0],
    12: [0.0, 0.3, 0.5, 1.2, 1.9, 2.0, 2.1, 3.0, 4.5, 4.9, 5.0, 7.0],
}


def pieces(x, k, end):
    """The interpolating spline as an operator on the ordinates, from its definition: data, continuity, end
    conditions. Returns the breaks and C[piece, power, datum] of the pieces in powers of (x - break)"""
    x = np.asarray(x, float)
    n = len(x)
    br = x if k != 2 else np.concatenate([[1.5 * x[0] - 0.5 * x[1]], (x[1:] + x[:-1]) / 2, [1.5 * x[-1] - 0.5 * x[-2]]])
    m = len(br) - 1
    rows, rhs = [], []

    def row(terms, datum=None):
        r = np.zeros((m, k + 1))
        for piece, order, t, s in terms:
            for p in range(order, k + 1):
                r[piece, p] += s * np.prod(np.arange(p - order + 1, p + 1)) * t ** (p - order)
        rows.append(r.ravel())
        b = np.zeros(n)
        if datum is not None:
            b[datum] = 1.0
        rhs.append(b)

    for i in range(n):
        j = min(max(int(np.searchsorted(br, x[i], side="right")) - 1, 0), m - 1)
        row([(j, 0, x[i] - br[j], 1.0)], i)
    for j in range(m - 1):
        for o in range(k):
            row([(j, o, br[j + 1] - br[j], 1.0), (j + 1, o, 0.0, -1.0)])
    if k == 2:
        row([(0, 2, 0.0, 1.0), (1, 2, 0.0, -1.0)])
        row([(m - 1, 2, 0.0, 1.0), (m - 2, 2, 0.0, -1.0)])
    if k == 3 and end == "natural":
        row([(0, 2, 0.0, 1.0)])
        row([(m - 1, 2, br[m] - br[m - 1], 1.0)])
    if k == 3 and end == "not-a-knot":
        row([(0, 3, 0.0, 1.0), (1, 3, 0.0, -1.0)])
        row([(m - 1, 3, 0.0, 1.0), (m - 2, 3, 0.0, -1.0)])
    C, _, rank, _ = np.linalg.lstsq(np.array(rows), np.array(rhs), rcond=None)
    assert rank == m * (k + 1)
    C[np.abs(C) < 1e-12 * np.abs(C).max()] = 0.0
    return br, C.reshape(m, k + 1, n)


def spline(x, y, k, end, q, order=0):
    """Derivative (antiderivative from the first break: -1) of the spline at q"""
    br, C = pieces(x, k, end)
    c = jnp.einsum("mpn,n->mp", C, y)
    out, cst = [], 0.0
    for j in range(len(br) - 1):
        t = q - br[j]
        if order >= 0:
            r = sum(c[j, p] * np.prod(np.arange(p - order + 1, p + 1)) * t ** (p - order) for p in range(order, k + 1))
        else:
            F = lambda t: sum(c[j, p] / (p + 1) * t ** (p + 1) for p in range(k + 1))
            r = cst + F(t)
            cst = cst + F(br[j + 1] - br[j])
        out.append(r + 0.0 * q)
    res = out[-1]
    for j in range(len(br) - 3, -1, -1):
        res = jnp.where(q < br[j + 1], out[j], res)
    return res


def obligations(tier):
    obs = []
    big = tier != "quick"

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-7)
        kw.setdefault("stubs", ("linalg",))
        kw.setdefault("budget", 100)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    Y = lambda n: In(-5.0, 5.0, (n,))
    kinds = [(1, "not-a-knot", (2, 3, 5)), (2, "not-a-knot", (3, 4, 6)), (3, "natural", (4, 5, 8)), (3, "not-a-knot", (4, 5, 8))]
    for k, end, sizes in kinds:
        for n in sizes + ((12,) if big else ()):
            x = KNOTS[n]
            w = x[-1] - x[0]
            Q = In(x[0] - w, x[-1] + w, special=tuple(x))
            t = "k%d-%s/%d" % (k, end[:3], n)
            S = lambda y, k=k, end=end, x=x: Spline(jnp.asarray(x), y, k=k, endpoints=end)
            eq(t + "/value", dict(y=Y(n), q=Q), lambda S=S, **d: S(d["y"])(d["q"]), lambda k=k, end=end, x=x, **d: spline(x, d["y"], k, end, d["q"]), "value anywhere, extrapolating the end pieces")
            eq(t + "/data", dict(y=Y(n)), lambda S=S, x=x, **d: S(d["y"])(jnp.asarray(x)), lambda **d: d["y"], "passes through the data")
            eq(
                t + "/antiderivative",
                dict(y=Y(n), q=Q),
                lambda S=S, x=x, **d: (lambda s: s.antiderivative(d["q"]) - s.antiderivative(x[0]))(S(d["y"])),
                lambda k=k, end=end, x=x, **d: spline(x, d["y"], k, end, d["q"], -1) - spline(x, d["y"], k, end, x[0], -1),
                "the antiderivative, up to a constant",
            )
            for o in range(0, k + 1):
                if n == sizes[-1] and not big and o < k:
                    continue
                eq(
                    t + "/derivative%d" % o,
                    dict(y=Y(n), q=Q),
                    lambda S=S, o=o, **d: S(d["y"]).derivative(d["q"], n=o),
                    lambda k=k, end=end, x=x, o=o, **d: spline(x, d["y"], k, end, d["q"], o),
                    "derivative of order %d" % o,
                )
        n = sizes[1]
        x = KNOTS[n]
        w = x[-1] - x[0]
        S = lambda y, k=k, end=end, x=x: Spline(jnp.asarray(x), y, k=k, endpoints=end)
        t = "k%d-%s" % (k, end[:3])
        eq(t + "/default-derivative", dict(y=Y(n), q=In(x[0], x[-1])), lambda S=S, **d: S(d["y"]).derivative(d["q"]), lambda k=k, end=end, x=x, **d: spline(x, d["y"], k, end, d["q"], 1), "the first derivative is the default")
        eq(
            t + "/integral",
            dict(y=Y(n), a=In(x[0] - w / 2, x[-1] + w / 2, special=tuple(x)), b=In(x[0] - w / 2, x[-1] + w / 2, special=tuple(x))),
            lambda S=S, **d: (lambda s: [jnp.sum(s.integral(d["a"], d["b"])), jnp.sum(s.integral(d["b"], d["a"]))])(S(d["y"])),
            lambda k=k, end=end, x=x, **d: (lambda I: [I, -I])(spline(x, d["y"], k, end, d["b"], -1) - spline(x, d["y"], k, end, d["a"], -1)),
            "definite integrals, in both directions",
        )
        if not (k == 3 and end == "natural"):
            eq(
                t + "/polynomials",
                dict(p=In(-3.0, 3.0, (k + 1,)), q=In(x[0] - w, x[-1] + w)),
                lambda S=S, x=x, **d: (lambda s: [s(d["q"]), s.derivative(d["q"])])(S(sum(d["p"][i] * jnp.asarray(x) ** i for i in range(len(d["p"]))))),
                lambda **d: [sum(d["p"][i] * d["q"] ** i for i in range(len(d["p"]))), sum(i * d["p"][i] * d["q"] ** (i - 1) for i in range(1, len(d["p"])))],
                "polynomials of its order are reproduced",
            )
        eq(
            t + "/array",
            dict(y=Y(n), q=In(x[0] - w, x[-1] + w, (2,))),
            lambda S=S, **d: (lambda s: [s(d["q"]), s.derivative(d["q"]), s.antiderivative(d["q"])])(S(d["y"])),
            lambda S=S, **d: (lambda s: [jnp.stack([f(d["q"][i]) for i in range(2)]) for f in (s, s.derivative, s.antiderivative)])(S(d["y"])),
            "arrays of points are evaluated one by one",
        )
        eq(
            t + "/gradient",
            dict(y=Y(n), q=In(x[0], x[-1])),
            lambda S=S, **d: jax.grad(lambda y: S(y)(d["q"]))(d["y"]),
            lambda k=k, end=end, x=x, n=n, **d: jnp.stack([spline(x, jnp.eye(n)[i], k, end, d["q"]) for i in range(n)]),
            "derivatives with respect to the data",
        )
    # defaults
    x = KNOTS[5]
    eq(
        "default",
        dict(y=Y(5), q=In(-3, 3)),
        lambda **d: Spline(jnp.asarray(x), d["y"])(d["q"]),
        lambda **d: spline(x, d["y"], 3, "not-a-knot", d["q"]),
        "cubic not-a-knot splines are the default",
    )
    eq(
        "unknown-end",
        dict(y=Y(5), q=In(-3, 3)),
        lambda **d: Spline(jnp.asarray(x), d["y"], endpoints="clamped")(d["q"]),
        lambda **d: spline(x, d["y"], 3, "natural", d["q"]),
        "unknown end conditions fall back to natural ones",
    )
    # arbitrary knots
    G = lambda n: dict(x0=In(-1.0, 1.0), g=In(0.2, 2.0, (n - 1,)), y=In(-5.0, 5.0, (n,)))
    kn = lambda d: d["x0"] + jnp.concatenate([jnp.zeros(1), jnp.cumsum(d["g"])])
    for k, end, n in ((1, "not-a-knot", 3), (2, "not-a-knot", 3), (2, "not-a-knot", 4), (3, "natural", 4), (3, "not-a-knot", 4), (3, "natural", 5), (3, "not-a-knot", 5)):
        S = lambda d, k=k, end=end: Spline(kn(d), d["y"], k=k, endpoints=end)
        t = "any/k%d-%s/%d" % (k, end[:3], n)
        eq(t + "/data", G(n), lambda S=S, **d: S(d)(kn(d)), lambda **d: d["y"], "passes through the data, arbitrary knots")
        if k == 1:
            eq(
                t + "/value",
                dict(G(n), u=In(0.01, 0.99)),
                lambda S=S, n=n, **d: S(d)(kn(d)[0] + d["u"] * d["g"][0]),
                lambda **d: d["y"][0] + d["u"] * (d["y"][1] - d["y"][0]),
                "linear between the data",
            )
        if k == 3:
            eq(
                t + "/curvature",
                dict(G(n), u=In(0.01, 0.99)),
                lambda S=S, n=n, **d: [S(d).derivative(kn(d)[i] + d["u"] * d["g"][i], n=2) for i in range(n - 1)],
                lambda S=S, n=n, **d: (lambda c: [(1.0 - d["u"]) * c[i] + d["u"] * c[i + 1] for i in range(n - 1)])(S(d).derivative(kn(d), n=2)),
                "the second derivative is continuous and linear between the knots",
                budget=60,
            )
            eq(
                t + "/slope",
                G(n),
                lambda S=S, n=n, **d: (lambda f: [f[i + 1] - f[i] for i in range(n - 1)])(S(d).derivative(kn(d), n=1)),
                lambda S=S, n=n, **d: (lambda c: [d["g"][i] / 2.0 * (c[i] + c[i + 1]) for i in range(n - 1)])(S(d).derivative(kn(d), n=2)),
                "the first derivative is continuous",
                budget=60,
            )
            eq(
                t + "/ends",
                G(n),
                lambda S=S, n=n, end=end, **d: (
                    (lambda c: [c[0], c[-1]])(S(d).derivative(kn(d), n=2))
                    if end == "natural"
                    else (lambda c: [c[0] - c[1], c[-2] - c[-1]])(S(d).derivative(kn(d), n=3))
                ),
                lambda **d: [jnp.zeros(()), jnp.zeros(())],
                "end conditions",
                budget=60,
                atol=1e-6,
            )
        if k == 2:
            eq(
                t + "/curvature",
                G(n),
                lambda S=S, n=n, **d: (lambda c: [c[0] - c[1], c[-2] - c[-1]])(S(d).derivative(kn(d), n=2)),
                lambda **d: [jnp.zeros(()), jnp.zeros(())],
                "end conditions",
                budget=60,
                atol=1e-6,
            )
    # invalid use
    def bad(name, f, inputs):
        obs.append(Ob("invalid/" + name, inputs, f, None, "rejected", kind="raises", exc=AssertionError))

    ax = lambda n: jnp.asarray(KNOTS[n])
    for k in (0, 4, -1):
        bad("order%d" % k, lambda k=k, **d: Spline(ax(5), d["y"], k=k), dict(y=Y(5)))
    for k in (1, 2, 3):
        bad("few%d" % k, lambda k=k, **d: Spline(jnp.arange(1.0 * k), d["y"], k=k), dict(y=Y(k)))
        for o in (-1, k + 1):
            bad("derivative%d-%d" % (k, o), lambda k=k, o=o, **d: Spline(ax(5), d["y"], k=k).derivative(d["q"], n=o), dict(y=Y(5), q=In(0, 1)))
    bad("length", lambda **d: Spline(ax(5), d["y"]), dict(y=Y(4)))
    bad("shape", lambda **d: Spline(ax(4), d["y"]), dict(y=In(-1, 1, (4, 2))))
    bad("shape-x", lambda **d: Spline(jnp.ones((4, 1)) * ax(4)[:, None], d["y"]), dict(y=Y(4)))
    return obs
