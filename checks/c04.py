"""C04 distances"""
import jax_cosmo.background as bk

from .common import *
from .lemmas import interp_lemmas, odeint_lemma

OK0 = dict(Omega_k=0.0)


def obligations(tier):
    ci = cosmo_inputs
    obs = []
    A = lambda *s: In(1.1e-3, 1.0, s, special=(1.0, 0.5))
    W = lambda *s: In(2e-4, 1.6, s, special=(1.0, 1e-3))

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-7)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    for s in ((), (2,)):
        n = "x".join(map(str, s))
        eq(
            "chi/a" + n,
            dict(ci(), a=W(*s)),
            lambda **d: bk.radial_comoving_distance(cosmology(d), d["a"]),
            lambda **d: chi(params(d), d["a"]),
            "chi(a) = R_H int_a^1 da / (a^2 E), on the documented table, zero today, never negative",
        )
        eq(
            "dchioverda/a" + n,
            dict(ci(), a=W(*s)),
            lambda **d: bk.dchioverda(cosmology(d), d["a"]),
            lambda **d: dchida(params(d), d["a"]),
            "dchi/da = R_H / (a^2 E)",
        )
        eq(
            "transverse/a" + n,
            dict(ci(), a=A(*s)),
            lambda **d: bk.transverse_comoving_distance(cosmology(d), d["a"]),
            lambda **d: transverse(params(d), d["a"]),
            "transverse distance: sinh for Omega_k > 0, sin for Omega_k < 0, identity when flat",
        )
        eq(
            "angular/a" + n,
            dict(ci(), a=A(*s)),
            lambda **d: bk.angular_diameter_distance(cosmology(d), d["a"]),
            lambda **d: d["a"] * transverse(params(d), d["a"]),
            "angular diameter distance = a times the transverse distance",
        )
    eq(
        "flat",
        dict(ci(Omega_k=0), a=A(2)),
        lambda **d: [
            bk.transverse_comoving_distance(cosmology(d), d["a"]),
            bk.angular_diameter_distance(cosmology(d), d["a"]),
        ],
        lambda **d: [chi(params(d), d["a"]), d["a"] * chi(params(d), d["a"])],
        "in a flat universe the transverse distance is the radial one",
    )
    for sgn, rng_ in (("open", (1e-6, 0.2)), ("closed", (-0.2, -1e-6))):
        eq(
            sgn,
            dict(ci(box=dict(Omega_k=rng_)), a=A()),
            lambda **d: bk.transverse_comoving_distance(cosmology(d), d["a"]),
            lambda **d: transverse(params(d), d["a"]),
            "transverse distance in %s universes" % sgn,
        )
    eq(
        "a_of_chi",
        dict(ci(), x=In(0.0, 6000.0, (2,))),
        lambda **d: bk.a_of_chi(cosmology(d), d["x"]),
        lambda **d: a_of_chi(params(d), d["x"]),
        "a_of_chi reads the same table backwards",
    )
    eq(
        "a_of_chi/after",
        dict(ci(), x=In(0.0, 6000.0), a=A()),
        lambda **d: (lambda c: [bk.radial_comoving_distance(c, d["a"]), bk.a_of_chi(c, d["x"]), bk.transverse_comoving_distance(c, d["a"])])(
            cosmology(d)
        ),
        lambda **d: [chi(params(d), d["a"]), a_of_chi(params(d), d["x"]), transverse(params(d), d["a"])],
        "the same, on one cosmology object",
    )
    for n, am in ((64, -2.0), (200, -3.5)) if tier == "quick" else ((64, -2.0), (200, -3.5), (512, -3.0), (33, -1.0)):
        eq(
            "chi/table%d" % n,
            dict(ci(), a=In(10**am, 1.0)),
            lambda n=n, am=am, **d: bk.radial_comoving_distance(cosmology(d), d["a"], log10_amin=am, steps=n),
            lambda n=n, am=am, **d: chi(params(d), d["a"], 10**am, n),
            "chi with %d steps from a = 10^%g" % (n, am),
        )
    eq(
        "chi/today",
        ci(),
        lambda **d: bk.radial_comoving_distance(cosmology(d), jnp.array([1.0, 1.2, 3.0])),
        lambda **d: jnp.zeros(3),
        "zero distance today; scale factors above one are clipped",
        atol=1e-9,
    )
    g = grid(1e-3, 256)
    eq(
        "chi/decreasing",
        ci(box=dict(w0=(-1.3, -0.6), wa=(-0.3, 0.3), Omega_k=(-0.1, 0.1))),
        lambda **d: (lambda x: x[:-1] - x[1:])(bk.radial_comoving_distance(cosmology(d), jnp.asarray(g[::5]))),
        None,
        "chi decreases with the scale factor (between 52 nodes of the table)",
        kind="nonneg",
        atol=0,
        strict=True,
    )
    eq(
        "gamma-same",
        dict(ci(gamma=True), a=A()),
        lambda **d: [bk.radial_comoving_distance(cosmology(d), d["a"]), bk.transverse_comoving_distance(cosmology(d), d["a"])],
        lambda **d: [chi(params(d), d["a"]), transverse(params(d), d["a"])],
        "the growth index does not enter the distances",
    )
    return obs + interp_lemmas() + [odeint_lemma()]
