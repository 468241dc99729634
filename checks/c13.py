"""C13 redshift distributions"""
import jax

import jax_cosmo.redshift as rds

from .common import *
from .lemmas import ref_simps, simps_lemma

SR = (180.0 * 60.0 / np.pi) ** 2


def simpson(f, b, N=256):
    """Simpson's rule on [0, b], vectorised"""
    x = np.linspace(0.0, b, N + 1)
    w = np.ones(N + 1)
    w[1:-1:2] = 4.0
    w[2:-1:2] = 2.0
    return jnp.sum(w * f(jnp.asarray(x))) * (b / N) / 3.0


def smail(d):
    def f(z):
        z = jnp.asarray(z)
        pos = jnp.where(z > 0, z, 1.0)
        return jnp.where(z > 0, jnp.exp(d["al"] * jnp.log(pos) - jnp.exp(d["be"] * (jnp.log(pos) - jnp.log(d["z0"])))), 0.0)

    return f


def kde(d, bw):
    def f(z):
        z = jnp.atleast_1d(z)
        g = jnp.exp(-((z[None, :] - d["cat"][:, None]) ** 2) / (2 * bw**2)) / np.sqrt(2 * np.pi) / bw
        return jnp.sum(g * d["w"][:, None], axis=0) / jnp.sum(d["w"])

    return f


PZ = prims.uf("pz", lambda z, p: (0.2 + z * z) * jnp.exp(-z * p) * (1.0 + 0.3 * jnp.sin(71.0 * z)), 1e-6, 10.0)


@jax.tree_util.register_pytree_node_class
class any_nz(rds.redshift_distribution):
    """An arbitrary distribution of one parameter"""

    def pz_fn(self, z):
        return PZ(z, self.params[0])


def obligations(tier):
    obs = []
    Z = lambda *s: In(0.01, 5.0, s)
    S = dict(al=In(0.5, 4.0, special=(2.0, 1.0)), be=In(0.5, 3.0, special=(1.5, 1.0)), z0=In(0.1, 2.0))

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-9)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    sm = lambda d, **kw: rds.smail_nz(d["al"], d["be"], d["z0"], **kw)
    for s in ((), (1,), (3,), (2, 2)):
        n = "x".join(map(str, s))
        eq("smail/pz/" + n, dict(S, z=Z(*s)), lambda **d: sm(d).pz_fn(d["z"]), lambda **d: smail(d)(d["z"]), "z^a exp(-(z/z0)^b)")
    for zm in (10.0, 3.0, 0.7):
        eq(
            "smail/normalised/%g" % zm,
            dict(S, z=Z(2)),
            lambda zm=zm, **d: sm(d, zmax=zm)(d["z"]),
            lambda zm=zm, **d: smail(d)(d["z"]) / simpson(smail(d), zm),
            "n(z) is the distribution over its integral up to zmax",
        )
        eq(
            "smail/integral/%g" % zm,
            S,
            lambda zm=zm, **d: simpson(sm(d, zmax=zm), zm),
            lambda **d: jnp.ones(()),
            "n(z) integrates to one over [0, zmax]",
        )
    eq(
        "smail/default",
        dict(S, z=Z()),
        lambda **d: sm(d)(d["z"]),
        lambda **d: smail(d)(d["z"]) / simpson(smail(d), 10.0),
        "zmax is 10 by default",
    )
    eq(
        "smail/scale-free",
        dict(S, z=Z(), c=In(0.1, 10)),
        lambda **d: (lambda a, b: b(d["z"]) / a(d["z"]))(sm(d, gals_per_arcmin2=1.0), sm(d, gals_per_arcmin2=d["c"])),
        lambda **d: jnp.ones(()),
        "the density of galaxies does not enter n(z)",
    )
    eq(
        "density",
        dict(g=In(0.1, 100.0), al=S["al"], be=S["be"], z0=S["z0"]),
        lambda **d: (
            lambda a, b, c: [a.gals_per_arcmin2, a.gals_per_steradian, b.gals_per_steradian, b.gals_per_arcmin2, c.gals_per_arcmin2, c.gals_per_steradian]
        )(sm(d, gals_per_arcmin2=d["g"]), rds.delta_nz(d["z0"], gals_per_arcmin2=d["g"]), sm(d)),
        lambda **d: [d["g"], d["g"] * SR, d["g"] * SR, d["g"], 1.0, SR],
        "galaxies per square arcmin and per steradian",
        rtol=1e-6,
    )
    K = dict(cat=In(0.05, 3.0, (3,)), w=In(0.1, 1.0, (3,), special=(1.0,)))
    for bw in (0.1, 0.35) if tier == "quick" else (0.05, 0.1, 0.35, 0.01):
        mk = lambda d, **kw: rds.kde_nz(d["cat"], d["w"], **kw)
        eq(
            "kde/pz/%g" % bw,
            dict(K, z=Z(2)),
            lambda bw=bw, **d: rds.kde_nz(d["cat"], d["w"], bw=bw).pz_fn(d["z"]),
            lambda bw=bw, **d: kde(d, bw)(d["z"]),
            "weighted mean of Gaussians of width bw",
            atol=1e-12,
        )
        eq(
            "kde/normalised/%g" % bw,
            dict(K, z=Z(2)),
            lambda bw=bw, **d: rds.kde_nz(d["cat"], d["w"], bw=bw, zmax=4.0)(d["z"]),
            lambda bw=bw, **d: kde(d, bw)(d["z"]) / simpson(kde(d, bw), 4.0),
            "n(z) is the estimate over its integral up to zmax",
            atol=1e-10,
        )
    eq(
        "kde/weights",
        dict(K, z=Z(2), c=In(0.5, 3.0)),
        lambda **d: rds.kde_nz(d["cat"], d["c"] * d["w"], bw=0.2).pz_fn(d["z"]),
        lambda **d: rds.kde_nz(d["cat"], d["w"], bw=0.2).pz_fn(d["z"]),
        "only the relative weights count",
        atol=1e-12,
    )
    eq(
        "kde/one-weight",
        dict(cat=In(0.05, 3.0), w=In(0.1, 1.0), z=Z(2)),
        lambda **d: rds.kde_nz(jnp.atleast_1d(d["cat"]), d["w"], bw=0.2).pz_fn(d["z"]),
        lambda **d: jnp.exp(-((d["z"] - d["cat"]) ** 2) / 0.08) / np.sqrt(2 * np.pi) / 0.2,
        "a catalogue of one galaxy is one Gaussian",
        atol=1e-12,
    )
    eq(
        "delta",
        dict(z0=In(0.1, 3.0), dz=In(-0.05, 0.05, special=(0.0,))),
        lambda z0, dz: [rds.delta_nz(z0).pz_fn(z0), rds.delta_nz(z0)(z0), rds.delta_nz(z0).pz_fn(z0 + dz), rds.delta_nz(z0, zmax=2.0)(jnp.stack([z0, z0 + dz]))],
        lambda z0, dz: [1.0, 1.0, jnp.where(dz == 0, 1.0, 0.0), jnp.stack([jnp.ones(()), jnp.where(dz == 0, 1.0, 0.0)])],
        "a single plane is one at its redshift and zero elsewhere",
        shapes=False,
    )
    SH = dict(p=In(0.5, 2.0), b=In(-0.3, 0.3, special=(0.0,)))
    sh = lambda d, **kw: rds.systematic_shift(any_nz(d["p"]), d["b"], **kw)
    shs = lambda d: lambda z: PZ(jnp.maximum(z - d["b"], 0.0), d["p"])
    for s in ((), (2,)):
        eq(
            "shift/pz/" + "x".join(map(str, s)),
            dict(SH, z=Z(*s)),
            lambda **d: sh(d).pz_fn(d["z"]),
            lambda **d: shs(d)(d["z"]),
            "the shifted distribution at z is the parent at z - bias, clipped at zero, for an arbitrary parent",
        )
    eq(
        "shift/normalised",
        dict(SH, z=Z()),
        lambda **d: sh(d, zmax=3.0)(d["z"]),
        lambda **d: shs(d)(d["z"]) / simpson(shs(d), 3.0),
        "and is normalised over its own range",
        budget=100,
    )
    eq(
        "any/normalised",
        dict(p=SH["p"], z=Z(2)),
        lambda **d: any_nz(d["p"], zmax=1.7)(d["z"]),
        lambda **d: PZ(d["z"], d["p"]) / simpson(lambda z: PZ(z, d["p"]), 1.7),
        "an arbitrary distribution is normalised by its integral up to zmax",
    )
    eq(
        "any/twice",
        dict(p=SH["p"], z=Z(2), y=Z()),
        lambda **d: (lambda n: [n(d["z"]), n(d["y"]), n(d["z"])])(any_nz(d["p"], zmax=1.7)),
        lambda **d: (lambda q: [PZ(d["z"], d["p"]) / q, PZ(d["y"], d["p"]) / q, PZ(d["z"], d["p"]) / q])(simpson(lambda z: PZ(z, d["p"]), 1.7)),
        "also when it is called several times",
    )
    eq(
        "shift/zero",
        dict(S, z=Z(2)),
        lambda **d: rds.systematic_shift(sm(d), 0.0)(d["z"]),
        lambda **d: sm(d)(d["z"]),
        "no shift leaves the distribution unchanged",
    )
    eq(
        "zmax",
        S,
        lambda **d: [sm(d).zmax, sm(d, zmax=2.5).zmax, rds.systematic_shift(sm(d, zmax=2.0), 0.1, zmax=3.0).zmax, rds.delta_nz(1.0).zmax],
        lambda **d: [10.0, 2.5, 3.0, 10.0],
        "zmax is the configured one, 10 by default",
    )
    eq(
        "tree",
        dict(S, z=Z(2), g=In(1, 50)),
        lambda **d: (lambda n: [n(d["z"]), n.gals_per_arcmin2, n.zmax])(jax.tree_util.tree_map(lambda x: x, sm(d, gals_per_arcmin2=d["g"], zmax=2.5))),
        lambda **d: [smail(d)(d["z"]) / simpson(smail(d), 2.5), d["g"], 2.5],
        "the same after a trip through its pytree leaves",
    )
    eq(
        "tree/shift",
        dict(SH, z=Z()),
        lambda **d: (lambda n: n.pz_fn(d["z"]))(jax.tree_util.tree_map(lambda x: x, sh(d))),
        lambda **d: shs(d)(d["z"]),
        "the same for a shifted distribution",
    )
    return obs + [simps_lemma(6), simps_lemma(256)]
