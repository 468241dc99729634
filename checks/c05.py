"""C05 growth"""
import jax_cosmo.background as bk

from .common import *
from .lemmas import interp_lemmas, odeint_lemma


def gam(d):
    return d.get("gamma", None)


def obligations(tier):
    ci = cosmo_inputs
    obs = []
    A = lambda *s: In(1e-3, 1.0, s, special=(1.0, 0.5))
    W = lambda *s: In(2e-4, 1.6, s, special=(1.0, 1e-3))

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-9)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    for g in (False, True):
        t = "gamma" if g else "ode"
        src = "d ln D/d ln a = Omega_m(a)^gamma" if g else "the linear growth equation"
        for s in ((), (2,)):
            n = "x".join(map(str, s))
            eq(
                "%s/D/a%s" % (t, n),
                dict(ci(gamma=g), a=W(*s)),
                lambda **d: bk.growth_factor(cosmology(d), d["a"]),
                lambda **d: growth(params(d), d["a"], gam(d)),
                "D(a) solves %s, D(1) = 1, within [0, 1]" % src,
            )
            eq(
                "%s/f/a%s" % (t, n),
                dict(ci(gamma=g), a=W(*s)),
                lambda **d: bk.growth_rate(cosmology(d), d["a"]),
                lambda **d: growth_rate(params(d), d["a"], gam(d)),
                "growth rate: %s" % ("Omega_m(a)^gamma" if g else "d ln D / d ln a of the same solution"),
            )
        eq(
            t + "/today",
            ci(gamma=g),
            lambda **d: bk.growth_factor(cosmology(d), jnp.array([1.0, 1.0])),
            lambda **d: jnp.ones(2),
            "D = 1 today",
            atol=1e-9,
        )
        eq(
            t + "/both",
            dict(ci(gamma=g), a=A()),
            lambda **d: (lambda c: [bk.growth_rate(c, d["a"]), bk.growth_factor(c, d["a"]), bk.growth_rate(c, d["a"])])(cosmology(d)),
            lambda **d: [
                growth_rate(params(d), d["a"], gam(d)),
                growth(params(d), d["a"], gam(d)),
                growth_rate(params(d), d["a"], gam(d)),
            ],
            "rate, factor and rate again on one object, whichever comes first",
        )
        eq(
            t + "/range",
            dict(ci(gamma=g), a=W()),
            lambda **d: (lambda D: [D, 1 - D])(bk.growth_factor(cosmology(d), d["a"])),
            None,
            "0 <= D <= 1 for any scale factor",
            kind="nonneg",
            atol=1e-12,
        )
    eq(
        "eds",
        dict(h=In(0.4, 1.0), Omega_b=In(0.01, 0.1), w0=In(-2.0, -0.4), wa=In(-1, 0.3)),
        lambda **d: bk.growth_rate(cosmology(d, Omega_c=1.0 - d["Omega_b"], Omega_k=0.0), jnp.asarray(grid(1e-3, 128)[1::9])),
        lambda **d: jnp.ones(15),
        "in an Einstein de Sitter universe the growth rate is 1",
        rtol=1e-6,
    )
    eq(
        "scalar",
        ci(),
        lambda **d: [bk.growth_factor(cosmology(d), 0.5), bk.growth_rate(cosmology(d), 0.5)],
        lambda **d: [growth(params(d), 0.5), growth_rate(params(d), 0.5)],
        "a Python float is accepted as scale factor",
    )
    g = grid(1e-3, 128)
    eq(
        "gamma/increasing",
        ci(gamma=True, box=dict(w0=(-1.3, -0.6), wa=(-0.3, 0.3), Omega_k=(-0.1, 0.1))),
        lambda **d: (lambda D: D[1:] - D[:-1])(bk.growth_factor(cosmology(d), jnp.asarray(g[::9]))),
        None,
        "D increases with the scale factor (between 15 nodes of the table)",
        kind="nonneg",
        atol=1e-12,
    )
    return obs + interp_lemmas() + [odeint_lemma()]
