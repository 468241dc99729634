"""C06 odeint"""
from jax_cosmo.scipy.ode import odeint

from .common import *
from .lemmas import RHS, odeint_lemma, ref_rk4

VX = prims.uf("vx", lambda x, y, t: -0.3 * y + jnp.sin(x) * t)
VY = prims.uf("vy", lambda x, y, t: x + 0.1 * y * t)


def vec(y, t):
    return jnp.stack([VX(y[0], y[1], t), VY(y[0], y[1], t)])


def obligations(tier):
    obs = []
    for n in (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 6, 8):
        obs.append(odeint_lemma(n, "scalar"))
        obs.append(
            Ob(
                "vector/%d" % n,
                dict(y0=In(-2, 2, (2,)), t=In(-3, 3, (n,))),
                lambda y0, t: odeint(vec, y0, t),
                lambda y0, t: ref_rk4(vec, y0, t),
                "a system of two equations with arbitrary right hand sides, %d arbitrary times" % n,
                atol=1e-9,
            )
        )
    obs.append(
        Ob(
            "first",
            dict(y0=In(-2, 2, (3,)), t=In(-3, 3, (2,))),
            lambda y0, t: odeint(lambda y, s: jnp.stack([RHS(y[0], s), RHS(y[1], s), RHS(y[2], s)]), y0, t)[0],
            lambda y0, t: y0,
            "the first row is the initial value",
        )
    )
    for deg in (0, 1, 2, 3):
        obs.append(
            Ob(
                "exact/t^%d" % deg,
                dict(y0=In(-2, 2), c=In(-2, 2, (deg + 1,)), t=In(-2, 2, (4,))),
                lambda y0, c, t: odeint(lambda y, s: sum(c[i] * s**i for i in range(len(c))), y0, t),
                lambda y0, c, t: y0 + sum(c[i] * (t ** (i + 1) - t[0] ** (i + 1)) / (i + 1) for i in range(len(c))),
                "polynomial right hand sides of degree %d in time are integrated exactly on any, also uneven or decreasing, times" % deg,
                atol=1e-9,
            )
        )
    obs.append(
        Ob(
            "linear",
            dict(y0=In(-2, 2), l=In(-2, 2), h=In(-1, 1, (2,))),
            lambda y0, l, h: odeint(lambda y, s: l * y, y0, jnp.stack([jnp.zeros(()), h[0], h[0] + h[1]])),
            lambda y0, l, h: (
                lambda p: jnp.stack([y0, y0 * p(l * h[0]), y0 * p(l * h[0]) * p(l * h[1])])
            )(lambda z: 1 + z + z**2 / 2 + z**3 / 6 + z**4 / 24),
            "y' = l y: each step multiplies by the exponential series to fourth order",
            atol=1e-9,
        )
    )
    obs.append(
        Ob(
            "reverse-affine",
            dict(y0=In(-2, 2), c=In(-2, 2), t=In(-2, 2, (2,))),
            lambda y0, c, t: odeint(lambda y, s: c * s, odeint(lambda y, s: c * s, y0, t)[-1], t[::-1])[-1],
            lambda y0, c, t: y0,
            "integrating forth and back returns to the start (quadratures)",
            atol=1e-9,
        )
    )
    obs.append(
        Ob(
            "scalar-python",
            dict(t=In(-3, 3, (3,))),
            lambda t: odeint(RHS, 0.5, t),
            lambda t: ref_rk4(RHS, jnp.asarray(0.5), t),
            "a Python float as initial value",
            atol=1e-9,
        )
    )
    return obs
