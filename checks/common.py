"""Inputs and independent specifications shared by the checks.

The specifications are written from the documentation (equations of the docstrings and
the references), not from the code, and never call jax_cosmo.
"""
import jax
import jax.numpy as jnp
import numpy as np

from engine import prims
from engine.harness import In, Ob

import jax_cosmo as jc

RH = 2997.92458  # Mpc/h
CLIGHT = 299792.458
NAMES = ["Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa"]
BOX = dict(
    Omega_c=(0.1, 0.6),
    Omega_b=(0.01, 0.1),
    h=(0.4, 1.0),
    n_s=(0.7, 1.2),
    sigma8=(0.3, 1.5),
    Omega_k=(-0.2, 0.2),
    w0=(-2.0, -0.4),
    wa=(-1.0, 0.35),
)
FID = dict(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.0, w0=-1.0, wa=0.0)
SPECIAL = dict(w0=(-1.0,), wa=(0.0,), Omega_k=(0.0,), n_s=(1.0,))


def cosmo_inputs(free=None, gamma=False, box=None, **fixed):
    b = dict(BOX)
    b.update(box or {})
    r = {}
    for n in NAMES:
        if (free is None or n in free) and n not in fixed:
            r[n] = In(*b[n], special=SPECIAL.get(n, ()))
    if gamma:
        r["gamma"] = In(0.3, 0.8, special=(0.55,))
    return r


def params(d, **fixed):
    """The parameters among the keyword arguments, completed with the fiducial ones"""
    p = dict(FID)
    p.update(fixed)
    p.update({k: d[k] for k in NAMES if k in d})
    return p


def cosmology(d, **fixed):
    p = params(d, **fixed)
    if "gamma" in d:
        p["gamma"] = d["gamma"]
    return jc.Cosmology(**p)


# ------------------------------------------------------------------ background
def om(p):
    return p["Omega_c"] + p["Omega_b"]


def ode_(p):
    return 1.0 - p["Omega_k"] - p["Omega_c"] - p["Omega_b"]


def fde(p, a):
    # dark energy density relative to today
    return a ** (-3.0 * (1.0 + p["w0"] + p["wa"])) * jnp.exp(-3.0 * p["wa"] * (1.0 - a))


def E2(p, a):
    return om(p) / a**3 + p["Omega_k"] / a**2 + ode_(p) * fde(p, a)


def Om_a(p, a):
    return om(p) / a**3 / E2(p, a)


def Ode_a(p, a):
    return ode_(p) * fde(p, a) / E2(p, a)


def w_a(p, a):
    return p["w0"] + p["wa"] * (1.0 - a)


def H(p, a):
    return 100.0 * jnp.sqrt(E2(p, a))


def dchida(p, a):
    return RH / (a**2 * jnp.sqrt(E2(p, a)))


def grid(amin, n):
    return 10.0 ** np.linspace(np.log10(amin), 0.0, n)


def chi_table(p, amin=1e-3, n=256):
    """Distance at the points of a logarithmic grid, by Simpson's rule on each interval
    (the fourth order Runge Kutta step of a pure quadrature)"""
    a = grid(amin, n)
    la = np.log(a)

    def f(l):
        x = jnp.exp(l)
        return RH / (x * jnp.sqrt(E2(p, x)))

    h = np.diff(la)
    d = h / 6.0 * (f(la[:-1]) + 4.0 * f(la[:-1] + h / 2.0) + f(la[1:]))
    c = jnp.concatenate([jnp.zeros(1), jnp.cumsum(d)])
    return a, c[-1] - c


def lin_interp(x, xp, fp):
    return prims.interp_contract(jnp.atleast_1d(x), jnp.asarray(xp), jnp.asarray(fp))


def chi(p, a, amin=1e-3, n=256):
    at, ct = chi_table(p, amin, n)
    return jnp.maximum(lin_interp(a, at, ct), 0.0)


def a_of_chi(p, x):
    at, ct = chi_table(p)
    return lin_interp(x, ct, at)


def transverse(p, a):
    """S_k(chi)"""
    c = chi(p, a)
    ok = p["Omega_k"]
    x = jnp.sqrt(jnp.abs(ok))
    x = jnp.where(ok == 0, 1.0, x)
    s = jnp.where(
        ok > 0,
        RH / x * jnp.sinh(x * c / RH),
        jnp.where(ok < 0, RH / x * jnp.sin(x * c / RH), c),
    )
    return s


# ------------------------------------------------------------------ growth
def growth_raw(p, n=128):
    """Linear growth D'' + (2 - (Om + (1+3w) Ode)/2) D'/a = 3/2 Om D / a^2 by the
    classical fourth order Runge Kutta method, from D = a in matter domination"""
    a = jnp.asarray(grid(1e-3, n))

    def rhs(x, D, V):
        q = 2.0 - 0.5 * (Om_a(p, x) + (1.0 + 3.0 * w_a(p, x)) * Ode_a(p, x))
        return V, 1.5 * Om_a(p, x) * D / x**2 - q * V / x

    def step(c, i):
        D, V = c
        x, x1 = a[i], a[i + 1]
        h = x1 - x
        a1, b1 = rhs(x, D, V)
        a2, b2 = rhs(x + h / 2, D + h * a1 / 2, V + h * b1 / 2)
        a3, b3 = rhs(x + h / 2, D + h * a2 / 2, V + h * b2 / 2)
        a4, b4 = rhs(x1, D + h * a3, V + h * b3)
        D = D + h * (a1 + 2 * a2 + 2 * a3 + a4) / 6
        V = V + h * (b1 + 2 * b2 + 2 * b3 + b4) / 6
        return (D, V), (D, V)

    D, V = jax.lax.scan(step, (a[0], jnp.ones(())), jnp.arange(n - 1))[1]
    D = jnp.concatenate([a[:1], D])
    V = jnp.concatenate([jnp.ones(1), V])
    return a, D, V


def growth_tables(p, n=128):
    a, D, V = growth_raw(p, n)
    return a, D / D[-1], a * V / D


def growth_gamma_table(p, gamma, n=128):
    """d ln D / d ln a = Om(a)^gamma"""
    la = np.log(grid(1e-3, n))
    f = lambda l: Om_a(p, jnp.exp(l)) ** gamma
    h = np.diff(la)
    d = h / 6.0 * (f(la[:-1]) + 4.0 * f(la[:-1] + h / 2.0) + f(la[1:]))
    c = jnp.concatenate([jnp.zeros(1), jnp.cumsum(d)])
    return np.exp(la), jnp.exp(c - c[-1])


def growth(p, a, gamma=None):
    if gamma is None:
        at, D, _ = growth_tables(p)
    else:
        at, D = growth_gamma_table(p, gamma)
    return jnp.clip(lin_interp(a, at, D), 0.0, 1.0)


def growth_rate(p, a, gamma=None):
    if gamma is None:
        at, _, f = growth_tables(p)
        return lin_interp(a, at, f)
    return Om_a(p, a) ** gamma
