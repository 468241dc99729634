"""Obligations on the shared components, which the properties that rest on them repeat."""
from .common import *


def _interp():
    from jax_cosmo.scipy.interpolate import interp

    return interp


def ref_interp(x, xp, fp):
    """Piecewise linear interpolation, by sums of ramps; the end segments extrapolate"""
    s = (fp[1:] - fp[:-1]) / (xp[1:] - xp[:-1])
    x = jnp.atleast_1d(x)
    up = xp[-1] > xp[0]
    r = fp[0] + s[0] * (x - xp[0])
    for i in range(1, xp.shape[0] - 1):
        past = jnp.where(up, x >= xp[i], x <= xp[i])
        r = jnp.where(past, fp[i] + s[i] * (x - xp[i]), r)
    return r


def interp_symbolic(n, nx=1, sign=1, name=None, outside=0.3):
    """The real interp on an arbitrary grid of n points"""
    span = 2.0 * (n - 1) + outside

    def grid_(d):
        return sign * (d["x0"] + jnp.concatenate([jnp.zeros(1), jnp.cumsum(d["gaps"])]))

    return Ob(
        (name or "lemma-interp") + "/%d%s" % (n, "+" if sign > 0 else "-"),
        dict(
            x=In(-span - 1, span + 1, (nx,)),
            x0=In(-1.0, 1.0),
            gaps=In(0.1, 2.0, (n - 1,)),
            f=In(-5.0, 5.0, (n,)),
        ),
        lambda **d: _interp()(d["x"], grid_(d), d["f"]),
        lambda **d: ref_interp(d["x"], grid_(d), d["f"]),
        "interp is piecewise linear through the points, for any %s grid of %d points and any ordinates"
        % ("increasing" if sign > 0 else "decreasing", n),
        stubs=(),
        rtol=1e-6,
        atol=1e-7,
        budget=100,
    )


def interp_grid(name="lemma-interp", n=256, decreasing=False, amin=1e-3):
    """The real interp on a grid of the tables, arbitrary ordinates"""
    g = np.log(grid(amin, n)) if decreasing is None else grid(amin, n)
    if decreasing:
        g = g[::-1]
    rng = np.random.default_rng(3)
    xs = np.concatenate([g[:3], g[-3:], g[n // 2 : n // 2 + 2], rng.uniform(amin, 1, 12), (g[:2] + g[1:3]) / 2, (g[-3:-1] + g[-2:]) / 2])
    xs = jnp.asarray(xs)
    gj = jnp.asarray(g)

    def ref(f):
        up = g[-1] > g[0]
        i = np.clip((np.searchsorted(g, np.asarray(xs), side="right") if up else np.searchsorted(-g, -np.asarray(xs), side="right")) - 1, 0, n - 2)
        t = (np.asarray(xs) - g[i]) / (g[i + 1] - g[i])
        return f[i] * (1 - t) + f[i + 1] * t

    return Ob(
        "%s/table%d%s" % (name, n, "-" if decreasing else ""),
        dict(f=In(0.0, 10.0, (n,))),
        lambda f: _interp()(xs, gj, f),
        lambda f: ref(f),
        "interp on the %d point logarithmic grid, arbitrary ordinates, at nodes and inside of intervals" % n,
        stubs=(),
        rtol=1e-8,
        atol=1e-10,
        budget=60,
    )


def interp_lemmas():
    return [interp_symbolic(4), interp_symbolic(4, sign=-1), interp_grid(), interp_grid(n=128)]


# ------------------------------------------------------------------ quadrature
F = prims.uf("f", lambda x: jnp.sin(1.7 * x + 0.3) + 0.3 * x**2 + 2.0 + 0.5 * jnp.sin(61.0 * x))
G = prims.uf("g", lambda x: jnp.cos(1.3 * x - 0.2) + 0.1 * x**3 - 0.4 * jnp.cos(53.0 * x))


def ref_simps(f, a, b, N):
    h = (b - a) / N
    y = [f(a + i * h) for i in range(N + 1)]
    w = [1.0 if i in (0, N) else (4.0 if i % 2 else 2.0) for i in range(N + 1)]
    return sum(wi * yi for wi, yi in zip(w, y)) * h / 3.0


def ref_romb(f, a, b, n):
    """Romberg's table R[n][n]"""
    R = [[(b - a) * (f(a) + f(b)) / 2.0]]
    for i in range(1, n + 1):
        h = (b - a) / 2**i
        s = sum(f(a + (2 * j + 1) * h) for j in range(2 ** (i - 1)))
        row = [R[-1][0] / 2.0 + h * s]
        for m in range(1, i + 1):
            row.append((4.0**m * row[m - 1] - R[-1][m - 1]) / (4.0**m - 1.0))
        R.append(row)
    return R


def simps_lemma(N=6, name="lemma-simps"):
    from jax_cosmo.scipy.integrate import simps

    return Ob(
        "%s/%d" % (name, N),
        dict(a=In(-3, 3, special=(0.0,)), b=In(-3, 3)),
        lambda a, b: simps(F, a, b, N),
        lambda a, b: ref_simps(F, a, b, N),
        "simps is the composite Simpson rule with %d intervals, for an arbitrary integrand and arbitrary limits" % N,
        atol=1e-9,
    )


def romb_lemma(n=3, name="lemma-romb"):
    from jax_cosmo.scipy.integrate import romb

    return Ob(
        "%s/%d" % (name, n),
        dict(a=In(-3, 3), b=In(-3, 3)),
        lambda a, b: romb(F, a, b, divmax=n),
        lambda a, b: ref_romb(F, a, b, n)[n][n],
        "romb is entry (%d, %d) of the Romberg table, for an arbitrary integrand and arbitrary limits" % (n, n),
        atol=1e-9,
    )


# ------------------------------------------------------------------ odeint
RHS = prims.uf("rhs", lambda y, t: jnp.sin(y + 0.5 * t) + 0.2 * t)


def ref_rk4(f, y, t):
    out = [y]
    for i in range(len(t) - 1):
        h = t[i + 1] - t[i]
        k1 = f(y, t[i])
        k2 = f(y + h * k1 / 2, t[i] + h / 2)
        k3 = f(y + h * k2 / 2, t[i] + h / 2)
        k4 = f(y + h * k3, t[i + 1])
        y = y + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6
        out.append(y)
    return jnp.stack(out)


def odeint_lemma(n=3, name="lemma-odeint"):
    from jax_cosmo.scipy.ode import odeint

    return Ob(
        "%s/%d" % (name, n),
        dict(y0=In(-2, 2), t=In(-3, 3, (n,))),
        lambda y0, t: odeint(RHS, y0, t),
        lambda y0, t: ref_rk4(RHS, y0, t),
        "odeint is the classical RK4 method, for an arbitrary right hand side, initial value and times",
        atol=1e-9,
    )
