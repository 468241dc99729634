"""C15 weak lensing"""
import itertools

import jax_cosmo.bias as jb
import jax_cosmo.probes as pr

from .bins import *
from .lemmas import interp_lemmas, simps_lemma


def obligations(tier):
    obs = []
    Z = lambda *s: In(0.01, 2.4, s)
    ELL = In(2.0, 3000.0)
    P = lambda n: In(0.5, 2.0, (n,))
    B = lambda n: In(-1.0, 1.0, (n,))
    M = lambda n: In(-0.1, 0.1, (n,), special=(0.0,))
    D = lambda n: In(0.2, 2.3, (n,))
    ci = cosmo_inputs
    big = tier != "quick"

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-9)
        kw.setdefault("rtol", 1e-6)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def wl(bins, *a, **k):
        return pr.WeakLensing([b.obj for b in bins], *a, **k)

    def mk(d, kinds):
        """bins of the given kinds: e an arbitrary extended distribution, d a single plane"""
        return [ext(d["p"][i], 3.0 - 0.1 * i) if k == "e" else dlt(d["q"][i], 2.5 + 0.2 * i) for i, k in enumerate(kinds)]

    def ins(kinds, z, cosmo=True, **kw):
        n = len(kinds)
        r = dict(ci() if cosmo else {})
        if "e" in kinds:
            r["p"] = P(n)
        if "d" in kinds:
            r["q"] = D(n)
        r.update(z=Z(*z), ell=ELL, **kw)
        return r

    # every order of extended and single plane bins
    for n in (1, 2, 3):
        for kinds in itertools.product("ed", repeat=n):
            k = "".join(kinds)
            eq(
                "bins/" + k,
                ins(k, (2,) if n == 1 else ()),
                lambda k=k, **d: wl(mk(d, k)).kernel(cosmology(d), d["z"], d["ell"]),
                lambda k=k, **d: lensing_kernel(params(d), mk(d, k), d["z"], d["ell"]),
                "row i is the lensing efficiency of bin i (e extended, d single plane)",
            )
    if big:
        for k in ("eded", "dede", "ddee", "edde"):
            eq(
                "bins/" + k,
                ins(k, ()),
                lambda k=k, **d: wl(mk(d, k)).kernel(cosmology(d), d["z"], d["ell"]),
                lambda k=k, **d: lensing_kernel(params(d), mk(d, k), d["z"], d["ell"]),
                "row i is the lensing efficiency of bin i",
            )
    # several redshifts at once, in any order and beyond the bins
    for k in ("e", "d", "ed", "de"):
        eq(
            "redshifts/" + k,
            dict(ins(k, (3,)), z=In(0.0, 3.0, (3,), special=(0.5,))),
            lambda k=k, **d: wl(mk(d, k)).kernel(cosmology(d), d["z"], d["ell"]),
            lambda k=k, **d: lensing_kernel(params(d), mk(d, k), d["z"], d["ell"]),
            "arrays of redshifts",
        )
    # multiplicative bias
    for k in ("ee", "ed", "de", "e"):
        n = len(k)
        eq(
            "m/single/" + k,
            ins(k, (), m=M(1)),
            lambda k=k, **d: wl(mk(d, k), multiplicative_bias=d["m"][0]).kernel(cosmology(d), d["z"], d["ell"]),
            lambda k=k, n=n, **d: lensing_kernel(params(d), mk(d, k), d["z"], d["ell"], m=n * [d["m"][0]]),
            "one multiplicative bias for all bins: factor 1 + m",
        )
        eq(
            "m/list/" + k,
            ins(k, (2,), m=M(n)),
            lambda k=k, n=n, **d: wl(mk(d, k), multiplicative_bias=[d["m"][i] for i in range(n)]).kernel(cosmology(d), d["z"], d["ell"]),
            lambda k=k, n=n, **d: lensing_kernel(params(d), mk(d, k), d["z"], d["ell"], m=[d["m"][i] for i in range(n)]),
            "one multiplicative bias per bin",
        )
    # intrinsic alignments
    for n in (1, 2, 3):
        k = n * "e"
        eq(
            "ia/single/%d" % n,
            ins(k, (), b=B(1)),
            lambda k=k, **d: wl(mk(d, k), ia_bias=any_bias(d["b"][0])).kernel(cosmology(d), d["z"], d["ell"]),
            lambda k=k, n=n, **d: lensing_kernel(params(d), mk(d, k), d["z"], d["ell"], ia=n * [ubias(d["b"][0], d["sigma8"])]),
            "NLA alignments with one bias",
        )
        eq(
            "ia/list/%d" % n,
            ins(k, (2,), b=B(n)),
            lambda k=k, n=n, **d: wl(mk(d, k), [any_bias(d["b"][i]) for i in range(n)]).kernel(cosmology(d), d["z"], d["ell"]),
            lambda k=k, n=n, **d: lensing_kernel(params(d), mk(d, k), d["z"], d["ell"], ia=[ubias(d["b"][i], d["sigma8"]) for i in range(n)]),
            "NLA alignments with one bias per bin",
        )
        eq(
            "ia/m/%d" % n,
            ins(k, (), b=B(n), m=M(n)),
            lambda k=k, n=n, **d: wl(mk(d, k), [any_bias(d["b"][i]) for i in range(n)], [d["m"][i] for i in range(n)]).kernel(cosmology(d), d["z"], d["ell"]),
            lambda k=k, n=n, **d: lensing_kernel(
                params(d), mk(d, k), d["z"], d["ell"], [d["m"][i] for i in range(n)], [ubias(d["b"][i], d["sigma8"]) for i in range(n)]
            ),
            "the multiplicative bias applies to lensing and alignments",
        )
    eq(
        "ia/des",
        ins("ee", (2,), A=In(-2, 2, special=(0.0, 1.0)), eta=In(-1, 1, special=(0.0,)), z0=In(0.3, 1)),
        lambda **d: wl(mk(d, "ee"), ia_bias=jb.des_y1_ia_bias(d["A"], d["eta"], d["z0"])).kernel(cosmology(d), d["z"], d["ell"]),
        lambda **d: lensing_kernel(
            params(d), mk(d, "ee"), d["z"], d["ell"], ia=2 * [lambda z: d["A"] * jnp.exp(d["eta"] * (jnp.log(1 + z) - jnp.log(1 + d["z0"])))]
        ),
        "the DES Y1 alignment bias",
    )
    eq(
        "ia/gamma",
        dict(ins("e", (2,), b=B(1)), **ci(gamma=True)),
        lambda **d: wl(mk(d, "e"), ia_bias=any_bias(d["b"][0])).kernel(cosmology(d), d["z"], d["ell"]),
        lambda **d: lensing_kernel(dict(params(d), gamma=d["gamma"]), mk(d, "e"), d["z"], d["ell"], ia=[ubias(d["b"][0], d["sigma8"])]),
        "alignments with a growth index",
    )
    eq(
        "ia/none",
        ins("ee", ()),
        lambda **d: wl(mk(d, "ee"), None, 0.0).kernel(cosmology(d), d["z"], d["ell"]),
        lambda **d: lensing_kernel(params(d), mk(d, "ee"), d["z"], d["ell"]),
        "no alignments without a bias",
    )
    # the arbitrary distribution replaced by those of the library
    eq(
        "smail",
        dict(ci(), a=In(0.5, 3), b=In(0.7, 2), z0=In(0.3, 1.5), q=D(1), z=Z(2), ell=ELL),
        lambda **d: wl([dlt(d["q"][0], 2.0), sml(d["a"], d["b"], d["z0"])]).kernel(cosmology(d), d["z"], d["ell"]),
        lambda **d: lensing_kernel(params(d), [dlt(d["q"][0], 2.0), sml(d["a"], d["b"], d["z0"])], d["z"], d["ell"]),
        "Smail distributions",
        budget=100,
    )
    eq(
        "shifted",
        dict(ci(), p=P(2), s=In(-0.2, 0.2, special=(0.0,)), z=Z(2), ell=ELL),
        lambda **d: pr.WeakLensing([rds.systematic_shift(any_nz(d["p"][0]), d["s"], zmax=3.0), any_nz(d["p"][1], zmax=2.0)]).kernel(
            cosmology(d), d["z"], d["ell"]
        ),
        lambda **d: lensing_kernel(
            params(d),
            [Bin(None, normalised(lambda z: PZ(jnp.maximum(z - d["s"], 0.0), d["p"][0]), 3.0), 3.0, 1.0), ext(d["p"][1], 2.0)],
            d["z"],
            d["ell"],
        ),
        "shifted bins",
        budget=100,
    )
    eq(
        "twice",
        ins("ed", (2,), y=Z(), m=M(1)),
        lambda **d: (lambda w, c: [w.kernel(c, d["z"], d["ell"]), w.kernel(c, d["y"], 2 * d["ell"]), w.kernel(c, d["z"], d["ell"])])(
            wl(mk(d, "ed"), multiplicative_bias=d["m"][0]), cosmology(d)
        ),
        lambda **d: [
            lensing_kernel(params(d), mk(d, "ed"), d[k], l * d["ell"], m=2 * [d["m"][0]]) for k, l in (("z", 1), ("y", 2), ("z", 1))
        ],
        "called several times on the same objects",
    )
    G = dict(g=In(0.1, 100.0, (3,)), p=P(3), q=D(3))
    gb = lambda d, k: [ext(d["p"][i], gals=d["g"][i]) if c == "e" else dlt(d["q"][i], gals=d["g"][i]) for i, c in enumerate(k)]
    for k in ("e", "d", "ed", "eee", "ded"):
        n = len(k)
        eq(
            "noise/" + k,
            dict({x: v for x, v in G.items() if x in "g" or x == "p" and "e" in k or x == "q" and "d" in k}),
            lambda k=k, n=n, **d: [
                wl(gb(d, k)).noise(),
                wl(gb(d, k), sigma_e=0.3).noise(),
                wl(gb(d, k), None, 0.1, [0.2 + 0.1 * i for i in range(n)]).noise(),
                wl(gb(d, k), any_bias(1.0), sigma_e=0.4).noise(),
            ],
            lambda n=n, **d: [
                jnp.stack([s(i) ** 2 / (SR * d["g"][i]) for i in range(n)])
                for s in (lambda i: 0.26, lambda i: 0.3, lambda i: 0.2 + 0.1 * i, lambda i: 0.4)
            ],
            "sigma_e^2 over the galaxies per steradian, sigma_e single or per bin, 0.26 by default",
            atol=0.0,
        )
    eq(
        "shape",
        dict(p=P(3)),
        lambda **d: (lambda a, b, c: [a.n_tracers, b.n_tracers, c.n_tracers, a.zmax, b.zmax, c.zmax])(
            wl([ext(d["p"][0], 2.0), ext(d["p"][1], 3.5), ext(d["p"][2], 1.0)]),
            wl([ext(d["p"][0], 2.5)], any_bias(0.0)),
            wl([ext(d["p"][0], 0.5), dlt(1.0)]),
        ),
        lambda **d: [3, 1, 2, 3.5, 2.5, 10.0],
        "number of tracers and largest maximum redshift of the bins",
    )
    for k in ("d", "ed", "de", "eed"):
        obs.append(
            Ob(
                "error/ia/" + k,
                ins(k, (2,), cosmo=False, b=B(1)),
                lambda k=k, **d: wl(mk(d, k), ia_bias=any_bias(d["b"][0])).kernel(cosmology(d), d["z"], d["ell"]),
                None,
                "alignments of single planes are rejected, wherever in the list they are",
                kind="raises",
                exc=NotImplementedError,
            )
        )
    return obs + interp_lemmas() + [simps_lemma(6), simps_lemma(256)]
