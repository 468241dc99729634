"""C17 angular power spectra"""
import jax

import jax_cosmo.bias as jb
import jax_cosmo.probes as pr
from jax_cosmo.angular_cl import angular_cl, noise_cl
from jax_cosmo.jax_utils import container

from .bins import *
from .lemmas import simps_lemma

KER = prims.uf("kernel", lambda z, l, p: (0.3 + jnp.sin(z * p) ** 2) * (1 + 1.0 / l), 0.0, 1e3)
PK = prims.uf("pk", lambda k, a: 1e3 * a * k / (0.01 + k**2.5), 0.0, 1e6)
TK = prims.uf("tk", lambda k, s: s / (1.0 + k**2), 0.0, 10.0)


@jax.tree_util.register_pytree_node_class
class any_probe(container):
    """Tracers with arbitrary kernels, one parameter each"""

    @property
    def n_tracers(self):
        return len(self.params[0])

    @property
    def zmax(self):
        return self.config["zmax"]

    def kernel(self, cosmo, z, ell):
        return jnp.stack([KER(z, ell, x) for x in self.params[0]])

    def noise(self):
        return jnp.stack([x**2 for x in self.params[0]])


def pk_any(cosmo, k, a, transfer_fn=None):
    return PK(k, a)


def tk_any(cosmo, k):
    return TK(k, cosmo.sigma8)


def pk_with_transfer(cosmo, k, a, transfer_fn):
    return PK(k, a) * transfer_fn(cosmo, k)


def limber(p, rows, zmax, ell, pk, N=512):
    """rows(z, ell): kernels of all tracers. One Simpson sum per pair and multipole"""
    a0 = 1.0 / (1.0 + zmax)
    a = a0 + np.arange(N + 1) / N * (1.0 - a0)
    w = np.ones(N + 1)
    w[1:-1:2] = 4.0
    w[2:-1:2] = 2.0
    aj = jnp.asarray(a)
    x = chi(p, aj)
    g = dchida(p, aj) / jnp.maximum(x**2, 1.0) * w * (1.0 - a0) / N / 3.0 / CLIGHT**2
    out = []
    for l in range(ell.shape[0]):
        k = (ell[l] + 0.5) / jnp.maximum(x, 1.0)
        K = rows(1.0 / aj - 1.0, ell[l])
        q = pk(k, aj) * g
        n = K.shape[0]
        out.append(jnp.stack([jnp.sum(q * K[i] * K[j]) for i in range(n) for j in range(i, n)]))
    return jnp.stack(out, axis=1)


def obligations(tier):
    obs = []
    ci = cosmo_inputs
    L = lambda n: In(2.0, 3000.0, (n,))
    P = lambda n: In(0.5, 2.0, (n,))
    big = tier != "quick"

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-30)
        kw.setdefault("rtol", 1e-6)
        kw.setdefault("eager", 1)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def anyp(d, sizes, zmaxs):
        r, o = [], 0
        for n, z in zip(sizes, zmaxs):
            r.append(any_probe([d["p"][o + i] for i in range(n)], zmax=z))
            o += n
        return r

    urows = lambda d, N: lambda z, l: jnp.stack([KER(z, l, d["p"][i]) for i in range(N)])
    FIX = params({})
    for sizes, zm in (((1,), (2.0,)), ((2,), (1.5,)), ((1, 1), (1.0, 3.0)), ((2, 1), (3.0, 1.0)), ((1, 2), (0.5, 2.0)), ((1, 1, 1), (1.0, 2.0, 1.5))) + (
        (((2, 2), (1.0, 2.0)), ((4,), (2.0,))) if big else ()
    ):
        N = sum(sizes)
        t = "+".join(map(str, sizes))
        eq(
            "limber/" + t,
            dict(p=P(N), ell=L(1 if N > 2 else 2)),
            lambda sizes=sizes, zm=zm, **d: angular_cl(cosmology({}), d["ell"], anyp(d, sizes, zm), nonlinear_fn=pk_any),
            lambda N=N, zm=zm, **d: limber(FIX, urows(d, N), max(zm), d["ell"], PK),
            "every pair of tracers, arbitrary kernels and power spectrum",
        )
    eq(
        "cosmology",
        dict(ci(), p=P(1), ell=L(1)),
        lambda **d: angular_cl(cosmology(d), d["ell"], anyp(d, (1,), (2.0,)), nonlinear_fn=pk_any),
        lambda **d: limber(params(d), urows(d, 1), 2.0, d["ell"], PK),
        "any cosmology",
        budget=120,
    )
    eq(
        "transfer",
        dict(p=P(2), ell=L(1), sigma8=In(0.5, 1.2)),
        lambda **d: angular_cl(cosmology(d), d["ell"], anyp(d, (2,), (2.0,)), transfer_fn=tk_any, nonlinear_fn=pk_with_transfer),
        lambda **d: limber(FIX, urows(d, 2), 2.0, d["ell"], lambda k, a: PK(k, a) * TK(k, d["sigma8"])),
        "the transfer function is handed to the non-linear one, with the cosmology",
    )
    for nm, C in (
        ("open", dict(Omega_k=0.1)),
        ("dark-energy", dict(w0=-0.8, wa=0.2)),
        ("gamma", dict(gamma=0.55)),
    ):
        eq(
            "pinned/" + nm,
            dict(p=P(2), ell=L(1)),
            lambda C=C, **d: angular_cl(jc.Cosmology(**dict(FID, **C)), d["ell"], anyp(d, (1, 1), (2.0, 1.0)), nonlinear_fn=pk_any),
            lambda C=C, **d: limber(dict(FID, **C), urows(d, 2), 2.0, d["ell"], PK),
            "other cosmologies",
        )
    # the probes of the library
    nlf = pk_any
    fixed = lambda d: any_bias(d["b"])
    eq(
        "counts",
        dict(p=P(2), b=In(-1, 1), ell=L(1)),
        lambda **d: angular_cl(cosmology({}), d["ell"], [pr.NumberCounts([ext(d["p"][0], 2.0).obj, ext(d["p"][1], 1.5).obj], fixed(d))], nonlinear_fn=nlf),
        lambda **d: limber(
            FIX,
            lambda z, l: density_rows(FIX, [ext(d["p"][0], 2.0), ext(d["p"][1], 1.5)], 2 * [ubias(d["b"], FIX["sigma8"])], z),
            2.0,
            d["ell"],
            PK,
        ),
        "number counts",
    )
    eq(
        "mixed",
        dict(p=P(2), b=In(-1, 1), q=In(0.3, 1.8), ell=L(1)),
        lambda **d: angular_cl(
            cosmology({}),
            d["ell"],
            [any_probe([d["q"]], zmax=1.0), pr.NumberCounts([ext(d["p"][0], 2.0).obj], fixed(d)), any_probe([d["p"][1]], zmax=0.5)],
            nonlinear_fn=nlf,
        ),
        lambda **d: limber(
            FIX,
            lambda z, l: jnp.concatenate(
                [KER(z, l, d["q"])[None], density_rows(FIX, [ext(d["p"][0], 2.0)], [ubias(d["b"], FIX["sigma8"])], z), KER(z, l, d["p"][1])[None]]
            ),
            2.0,
            d["ell"],
            PK,
        ),
        "different probes in the order of the list",
    )
    eq(
        "lensing",
        dict(q=In(0.3, 1.8, (2,)), m=In(-0.1, 0.1), ell=L(1)),
        lambda **d: angular_cl(
            cosmology({}), d["ell"], [pr.WeakLensing([dlt(d["q"][0], 2.0).obj, dlt(d["q"][1], 1.5).obj], multiplicative_bias=d["m"])], nonlinear_fn=nlf
        ),
        lambda **d: limber(
            FIX, lambda z, l: lensing_kernel(FIX, [dlt(d["q"][0], 2.0), dlt(d["q"][1], 1.5)], z, l, m=2 * [d["m"]]), 2.0, d["ell"], PK
        ),
        "lensing of single planes",
        budget=100,
    )
    # independence of multipoles and ordering
    eq(
        "multipoles",
        dict(p=P(2), ell=L(3)),
        lambda **d: angular_cl(cosmology({}), d["ell"], anyp(d, (2,), (2.0,)), nonlinear_fn=nlf),
        lambda **d: jnp.concatenate(
            [angular_cl(cosmology({}), d["ell"][i : i + 1], anyp(d, (2,), (2.0,)), nonlinear_fn=nlf) for i in (0, 1, 2)], axis=1
        ),
        "each multipole is that of a call on its own",
    )
    eq(
        "swap",
        dict(p=P(3), ell=L(1)),
        lambda **d: angular_cl(cosmology({}), d["ell"], anyp(d, (1, 2), (1.0, 2.0)), nonlinear_fn=nlf),
        lambda **d: angular_cl(
            cosmology({}), d["ell"], [any_probe([d["p"][1], d["p"][2]], zmax=2.0), any_probe([d["p"][0]], zmax=1.0)], nonlinear_fn=nlf
        )[jnp.array([5, 2, 4, 0, 1, 3])],
        "swapping the probes permutes the rows",
    )
    eq(
        "again",
        dict(p=P(2), ell=L(1)),
        lambda **d: (
            lambda c, q: [angular_cl(c, d["ell"], q, nonlinear_fn=nlf), angular_cl(c, 2 * d["ell"], q[::-1], nonlinear_fn=nlf), angular_cl(c, d["ell"], q, nonlinear_fn=nlf)]
        )(cosmology({}), anyp(d, (1, 1), (2.0, 1.0))),
        lambda **d: (lambda x: [x, limber(FIX, lambda z, l: urows(d, 2)(z, l)[::-1], 2.0, 2 * d["ell"], PK), x])(
            limber(FIX, urows(d, 2), 2.0, d["ell"], PK)
        ),
        "called again with the same objects",
    )
    # noise
    for sizes in ((1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1)):
        N = sum(sizes)
        for ne in (1, 3):
            eq(
                "noise/%s/%d" % ("+".join(map(str, sizes)), ne),
                dict(p=P(N), ell=L(ne)),
                lambda sizes=sizes, **d: noise_cl(d["ell"], anyp(d, sizes, len(sizes) * [1.0])),
                lambda N=N, ne=ne, **d: jnp.stack(
                    [(d["p"][i] ** 2 if i == j else 0.0) * jnp.ones(ne) for i in range(N) for j in range(i, N)]
                ),
                "noise of tracer i in row (i, i), zero elsewhere",
            )
    eq(
        "noise/library",
        dict(g=In(0.1, 50, (3,)), p=P(3), ell=L(2)),
        lambda **d: noise_cl(
            d["ell"],
            [
                pr.WeakLensing([ext(d["p"][0], gals=d["g"][0]).obj, ext(d["p"][1], gals=d["g"][1]).obj], sigma_e=[0.3, 0.4]),
                pr.NumberCounts([ext(d["p"][2], gals=d["g"][2]).obj], any_bias(1.0)),
            ],
        ),
        lambda **d: jnp.stack([jnp.full(2, 1.0) * v for v in (0.09 / SR / d["g"][0], 0, 0, 0.16 / SR / d["g"][1], 0, 1 / SR / d["g"][2])]),
        "of lensing and number counts",
    )
    return obs + [simps_lemma(6), simps_lemma(512)]
