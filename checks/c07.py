"""C07 quadratures"""
from jax_cosmo.scipy.integrate import romb, simps

from .common import *
from .lemmas import F, G, ref_romb, ref_simps, romb_lemma, simps_lemma

H2 = prims.uf("h2", lambda x, y: jnp.sin(x * 1.1 + y) + y**2 + 0.4 * jnp.sin(47.0 * x))


def integral(c, a, b):
    return sum(c[i] * (b ** (i + 1) - a ** (i + 1)) / (i + 1) for i in range(len(c)))


def poly(c, x):
    return sum(c[i] * x**i for i in range(len(c)))


def obligations(tier):
    AB = lambda: dict(a=In(-3, 3, special=(0.0,)), b=In(-3, 3))
    obs = [simps_lemma(N, "simps") for N in ((2, 4, 10) if tier == "quick" else (2, 4, 6, 10, 32, 64))]
    obs += [romb_lemma(n, "romb") for n in ((1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7))]
    kw = dict(atol=1e-8)
    obs.append(
        Ob("simps/default", AB(), lambda a, b: simps(F, a, b), lambda a, b: ref_simps(F, a, b, 128), "128 intervals by default", **kw)
    )
    obs.append(
        Ob("romb/default", AB(), lambda a, b: romb(F, a, b), lambda a, b: ref_romb(F, a, b, 6)[6][6], "six bisections by default", budget=200, **kw)
    )
    for N in (2, 4, 256):
        obs.append(
            Ob(
                "simps/cubic/%d" % N,
                dict(AB(), c=In(-2, 2, (4,))),
                lambda a, b, c, N=N: simps(lambda x: poly(c, x), a, b, N),
                lambda a, b, c: integral(c, a, b),
                "simps integrates cubics exactly, whatever the limits",
                **kw
            )
        )
    for n in (1, 2, 3):
        obs.append(
            Ob(
                "romb/poly/%d" % n,
                dict(AB(), c=In(-2, 2, (2 * n + 2,))),
                lambda a, b, c, n=n: romb(lambda x: poly(c, x), a, b, divmax=n),
                lambda a, b, c: integral(c, a, b),
                "romb with %d bisections integrates polynomials of degree %d exactly" % (n, 2 * n + 1),
                **kw
            )
        )
    obs.append(
        Ob(
            "simps/linear",
            dict(AB(), p=In(-2, 2), q=In(-2, 2)),
            lambda a, b, p, q: simps(lambda x: p * F(x) + q * G(x), a, b, 8),
            lambda a, b, p, q: p * simps(F, a, b, 8) + q * simps(G, a, b, 8),
            "linear in the integrand",
            **kw
        )
    )
    obs.append(
        Ob("simps/orientation", AB(), lambda a, b: simps(F, a, b, 8), lambda a, b: -simps(F, b, a, 8), "the sign follows the orientation", **kw)
    )
    obs.append(
        Ob("romb/orientation", AB(), lambda a, b: romb(F, a, b, divmax=3), lambda a, b: -romb(F, b, a, divmax=3), "the sign follows the orientation", **kw)
    )
    obs.append(
        Ob(
            "simps/vector",
            dict(AB(), s=In(-1, 1, (3,))),
            lambda a, b, s: simps(lambda x: H2(x[:, None], s[None, :]), a, b, 6),
            lambda a, b, s: jnp.stack([ref_simps(lambda x: H2(x, s[i]), a, b, 6) for i in range(3)]),
            "vector valued integrands are integrated component by component",
            **kw
        )
    )
    obs.append(
        Ob(
            "simps/matrix",
            dict(AB(), s=In(-1, 1, (2,)), t=In(-1, 1, (2,))),
            lambda a, b, s, t: simps(lambda x: H2(x[:, None, None], s[None, :, None]) * t[None, None, :], a, b, 4),
            lambda a, b, s, t: jnp.stack([ref_simps(lambda x: H2(x, s[i]), a, b, 4) * t for i in range(2)]),
            "also matrix valued ones",
            **kw
        )
    )
    obs.append(
        Ob(
            "simps/limits",
            dict(a=In(-3, 3, (3,)), b=In(-3, 3)),
            lambda a, b: simps(F, a, b, 6),
            lambda a, b: jnp.stack([ref_simps(F, a[i], b, 6) for i in range(3)]),
            "an array of lower limits, as in the lensing kernel",
            **kw
        )
    )
    obs.append(
        Ob(
            "romb/args",
            dict(AB(), s=In(-1, 1), t=In(-1, 1)),
            lambda a, b, s, t: romb(lambda x, p, q: H2(x, p) * q, a, b, args=(s, t), divmax=3),
            lambda a, b, s, t: ref_romb(lambda x: H2(x, s) * t, a, b, 3)[3][3],
            "args are handed to the integrand in order",
            **kw
        )
    )
    obs.append(
        Ob(
            "romb/error",
            AB(),
            lambda a, b: romb(F, a, b, divmax=3, return_error=True),
            lambda a, b: (lambda R: [R[3][3], jnp.abs(R[2][2] - R[3][3])])(ref_romb(F, a, b, 3)),
            "return_error also returns the change of the last refinement",
            **kw
        )
    )
    for N in (1, 3, 127):
        obs.append(
            Ob(
                "simps/odd/%d" % N,
                AB(),
                lambda a, b, N=N: simps(F, a, b, N),
                None,
                "an odd number of intervals is refused",
                kind="raises",
                exc=ValueError,
            )
        )
    return obs
