"""C16 number counts"""
import jax_cosmo.bias as jb
import jax_cosmo.probes as pr

from .bins import *
from .lemmas import simps_lemma


def obligations(tier):
    obs = []
    Z = lambda *s: In(0.01, 2.9, s)
    ELL = In(2.0, 3000.0)
    P = lambda n: In(0.5, 2.0, (n,))
    B = lambda n: In(-1.0, 1.0, (n,))
    ci = cosmo_inputs

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-9)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def nc(bins, bias):
        return pr.NumberCounts([b.obj for b in bins], bias)

    for n in (1, 2, 3):
        bins = lambda d, n=n: [ext(d["p"][i], 3.0 - 0.2 * i) for i in range(n)]
        for s in ((), (1,), (2,)):
            t = "%d/z%s" % (n, "x".join(map(str, s)))
            eq(
                "single-bias/" + t,
                dict(ci(), p=P(n), b=B(1), z=Z(*s), ell=ELL),
                lambda bins=bins, **d: nc(bins(d), any_bias(d["b"][0])).kernel(cosmology(d), d["z"], d["ell"]),
                lambda bins=bins, n=n, **d: density_rows(params(d), bins(d), n * [ubias(d["b"][0], d["sigma8"])], d["z"]),
                "row i is n_i(z) b(z) H(z), independent of ell",
            )
            eq(
                "per-bin-bias/" + t,
                dict(ci(), p=P(n), b=B(n), z=Z(*s), ell=ELL),
                lambda bins=bins, n=n, **d: nc(bins(d), [any_bias(d["b"][i]) for i in range(n)]).kernel(cosmology(d), d["z"], d["ell"]),
                lambda bins=bins, n=n, **d: density_rows(params(d), bins(d), [ubias(d["b"][i], d["sigma8"]) for i in range(n)], d["z"]),
                "row i is n_i(z) b_i(z) H(z)",
            )
    eq(
        "constant-bias",
        dict(ci(), p=P(2), b=In(0.5, 3, (2,)), z=Z(2), ell=ELL),
        lambda **d: nc([ext(x) for x in d["p"]], [jb.constant_linear_bias(d["b"][0]), jb.constant_linear_bias(d["b"][1])]).kernel(cosmology(d), d["z"], d["ell"]),
        lambda **d: density_rows(params(d), [ext(x) for x in d["p"]], [lambda z: d["b"][0], lambda z: d["b"][1]], d["z"]),
        "constant biases",
    )
    eq(
        "growth-bias",
        dict(ci(), p=P(2), b=In(0.5, 3), z=Z(), ell=ELL),
        lambda **d: nc([ext(x) for x in d["p"]], jb.inverse_growth_linear_bias(d["b"])).kernel(cosmology(d), d["z"], d["ell"]),
        lambda **d: density_rows(params(d), [ext(x) for x in d["p"]], 2 * [lambda z: d["b"] / growth(params(d), 1 / (1 + z))], d["z"]),
        "the bias is evaluated with the cosmology of the call",
    )
    eq(
        "smail",
        dict(ci(), a=In(0.5, 3), b=In(0.7, 2), z0=In(0.3, 1.5), c=In(0.5, 3), z=Z(2), ell=ELL),
        lambda **d: nc([sml(d["a"], d["b"], d["z0"]), ext(d["a"])], jb.constant_linear_bias(d["c"])).kernel(cosmology(d), d["z"], d["ell"]),
        lambda **d: density_rows(params(d), [sml(d["a"], d["b"], d["z0"]), ext(d["a"])], 2 * [lambda z: d["c"]], d["z"]),
        "Smail distributions next to arbitrary ones",
    )
    eq(
        "shifted",
        dict(ci(), p=P(2), s=In(-0.2, 0.2), c=In(0.5, 3), z=Z(2), ell=ELL),
        lambda **d: pr.NumberCounts(
            [rds.systematic_shift(any_nz(d["p"][0]), d["s"], zmax=3.0), any_nz(d["p"][1], zmax=2.0)], any_bias(d["c"])
        ).kernel(cosmology(d), d["z"], d["ell"]),
        lambda **d: density_rows(
            params(d),
            [
                Bin(None, normalised(lambda z: PZ(jnp.maximum(z - d["s"], 0.0), d["p"][0]), 3.0), 3.0, 1.0),
                ext(d["p"][1], 2.0),
            ],
            2 * [ubias(d["c"], d["sigma8"])],
            d["z"],
        ),
        "shifted bins",
    )
    eq(
        "twice",
        dict(ci(), p=P(2), b=B(1), z=Z(2), y=Z(), ell=ELL),
        lambda **d: (lambda q, c: [q.kernel(c, d["z"], d["ell"]), q.kernel(c, d["y"], 2 * d["ell"])])(nc([ext(x) for x in d["p"]], any_bias(d["b"][0])), cosmology(d)),
        lambda **d: [density_rows(params(d), [ext(x) for x in d["p"]], 2 * [ubias(d["b"][0], d["sigma8"])], d[k]) for k in "zy"],
        "called twice on the same objects",
    )
    G = dict(g=In(0.1, 100.0, (3,)), p=P(3))
    eq(
        "noise",
        G,
        lambda **d: [nc([ext(d["p"][i], gals=d["g"][i]) for i in range(n)], any_bias(0.0)).noise() for n in (1, 2, 3)],
        lambda **d: [jnp.stack([1.0 / (SR * d["g"][i]) for i in range(n)]) for n in (1, 2, 3)],
        "shot noise: one over the galaxies per steradian of each bin",
        rtol=1e-6,
        atol=0.0,
    )
    eq(
        "noise/default",
        dict(p=P(2)),
        lambda **d: nc([Bin(any_nz(x), None, 0, 0) for x in d["p"]], any_bias(0.0)).noise(),
        lambda **d: jnp.full(2, 1.0 / SR),
        "one galaxy per square arcminute by default",
        rtol=1e-6,
        atol=0.0,
    )
    eq(
        "shape",
        dict(p=P(3)),
        lambda **d: (lambda q, r, s: [q.n_tracers, r.n_tracers, s.n_tracers, q.zmax, r.zmax, s.zmax])(
            nc([ext(d["p"][0], 2.0), ext(d["p"][1], 3.5), ext(d["p"][2], 1.0)], any_bias(0.0)),
            nc([ext(d["p"][0], 2.5)], any_bias(0.0)),
            nc([ext(d["p"][0], 0.5), dlt(1.0)], any_bias(0.0)),
        ),
        lambda **d: [3, 1, 2, 3.5, 2.5, 10.0],
        "number of tracers and largest maximum redshift of the bins",
    )
    for i, mk in enumerate(
        (
            lambda d: [dlt(d["p"][0])],
            lambda d: [ext(d["p"][0]), dlt(d["p"][1])],
            lambda d: [dlt(d["p"][1]), ext(d["p"][0])],
            lambda d: [ext(d["p"][0]), dlt(d["p"][1]), ext(d["p"][0])],
        )
    ):
        obs.append(
            Ob(
                "error/delta/%d" % i,
                dict(p=P(2), z=Z(2), ell=ELL),
                lambda mk=mk, **d: nc(mk(d), any_bias(0.0)).kernel(cosmology(d), d["z"], d["ell"]),
                None,
                "single planes are rejected, wherever in the list they are",
                kind="raises",
                exc=NotImplementedError,
            )
        )
    return obs + [simps_lemma(6), simps_lemma(256)]
