"""C08 linear interpolation"""
import jax

from jax_cosmo.scipy.interpolate import interp

from .common import *
from .lemmas import interp_grid, interp_symbolic, ref_interp


def inc(d, sign=1):
    return sign * (d["x0"] + jnp.concatenate([jnp.zeros(1), jnp.cumsum(d["gaps"])]))


def obligations(tier):
    obs = []
    for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6, 8):
        for s in (1, -1):
            obs.append(interp_symbolic(n, sign=s, name="any"))
    obs.append(interp_symbolic(4, nx=2, name="any-two"))
    base = lambda n: dict(x0=In(-1.0, 1.0), gaps=In(0.1, 2.0, (n - 1,)), f=In(-5.0, 5.0, (n,)))
    for sgn in (1, -1):
        t = "+" if sgn > 0 else "-"
        for n in (4, 6):
            obs.append(
                Ob(
                    "nodes/%d%s" % (n, t),
                    base(n),
                    lambda sgn=sgn, **d: interp(inc(d, sgn), inc(d, sgn), d["f"]),
                    lambda **d: d["f"],
                    "interpolation returns the ordinates at the nodes",
                    stubs=(),
                    atol=1e-8,
                )
            )
        obs.append(
            Ob(
                "bounds/" + t,
                dict(base(4), u=In(0, 1)),
                lambda sgn=sgn, **d: (
                    lambda y: [jnp.max(d["f"]) - y, y - jnp.min(d["f"])]
                )(interp(jnp.atleast_1d(sgn * (d["x0"] + d["u"] * jnp.sum(d["gaps"]))), inc(d, sgn), d["f"])),
                None,
                "inside the grid the value stays between the smallest and the largest ordinate",
                kind="nonneg",
                stubs=(),
                atol=1e-7,
                budget=200,
            )
        )
        obs.append(
            Ob(
                "linear/" + t,
                dict(x=In(-9, 9), x0=In(-1.0, 1.0), gaps=In(0.1, 2.0, (4,)), p=In(-3, 3), q=In(-3, 3)),
                lambda sgn=sgn, **d: interp(jnp.atleast_1d(d["x"]), inc(d, sgn), d["p"] + d["q"] * inc(d, sgn)),
                lambda **d: jnp.atleast_1d(d["p"] + d["q"] * d["x"]),
                "linear functions are reproduced everywhere",
                stubs=(),
                atol=1e-7,
            )
        )
    obs += [interp_grid("grid"), interp_grid("grid", n=128), interp_grid("grid", n=256, decreasing=True)]
    g4 = jnp.asarray([0.1, 0.3, 0.7, 1.0])
    obs.append(
        Ob(
            "slope",
            dict(x=In(0.11, 0.99), f=In(-5, 5, (4,)), df=In(-1, 1, (4,))),
            lambda x, f, df: jax.jvp(lambda x, f: interp(jnp.atleast_1d(x), g4, f), (x, f), (1.0, df))[1],
            lambda x, f, df: (
                lambda i: jnp.atleast_1d((f[i + 1] - f[i]) / (g4[i + 1] - g4[i]) + (df[i] + (x - g4[i]) * (df[i + 1] - df[i]) / (g4[i + 1] - g4[i])))
            )(jnp.where(x < 0.3, 0, jnp.where(x < 0.7, 1, 2))),
            "derivatives with respect to the query and the ordinates, inside of the intervals",
            assume=lambda x, f, df: jnp.minimum(jnp.abs(x - 0.3), jnp.abs(x - 0.7)) > 1e-6,
            stubs=(),
            atol=1e-7,
        )
    )
    return obs
