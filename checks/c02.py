"""C02 results do not depend on the history"""
import jax

import jax_cosmo.background as bk
import jax_cosmo.power as pw
import jax_cosmo.probes as pr
import jax_cosmo.redshift as rds
import jax_cosmo.transfer as tkl
from jax_cosmo.angular_cl import angular_cl

from .bins import *
from .c11 import TF, any_transfer
from .c17 import any_probe, limber, pk_any, PK, KER

SET = dict(log10_amin=-2, steps=48)


def R(x):
    return jnp.ravel(jnp.asarray(x))


# name -> (call on an object, what it should return); d: arguments, p: parameters
CALLS = {
    "chi": (lambda c, d: bk.radial_comoving_distance(c, d["a"]), lambda p, d: chi(p, d["a"])),
    "chi-amin": (lambda c, d: bk.radial_comoving_distance(c, d["a"], log10_amin=-2), lambda p, d: chi(p, d["a"], 1e-2)),
    "chi-steps": (lambda c, d: bk.radial_comoving_distance(c, d["a"], steps=32), lambda p, d: chi(p, d["a"], 1e-3, 32)),
    "chi-both": (lambda c, d: bk.radial_comoving_distance(c, d["a"], -2, 48), lambda p, d: chi(p, d["a"], 1e-2, 48)),
    "a-of-chi": (lambda c, d: bk.a_of_chi(c, 4000.0 * d["a"]), lambda p, d: a_of_chi(p, 4000.0 * d["a"])),
    "transverse": (lambda c, d: bk.transverse_comoving_distance(c, d["a"]), lambda p, d: transverse(p, d["a"])),
    "angular": (lambda c, d: bk.angular_diameter_distance(c, d["a"]), lambda p, d: d["a"] * transverse(p, d["a"])),
    "jit-a": (lambda c, d: jax.jit(lambda a: bk.radial_comoving_distance(c, a))(d["a"]), lambda p, d: chi(p, d["a"])),
    "jit-a-steps": (lambda c, d: jax.jit(lambda a: bk.radial_comoving_distance(c, a, steps=32))(d["a"]), lambda p, d: chi(p, d["a"], 1e-3, 32)),
    "jit-c": (lambda c, d: jax.jit(lambda q: bk.radial_comoving_distance(q, d["a"]))(c), lambda p, d: chi(p, d["a"])),
    "vmap-a": (lambda c, d: jax.vmap(lambda a: bk.radial_comoving_distance(c, a))(jnp.stack([d["a"], d["b"]])), lambda p, d: jnp.stack([chi(p, d["a"]), chi(p, d["b"])])),
    "jvp-a": (
        lambda c, d: jax.jvp(lambda a: bk.transverse_comoving_distance(c, a), (d["a"],), (1.0,))[0],
        lambda p, d: transverse(p, d["a"]),
    ),
    "grad-c": (
        lambda c, d: (jax.grad(lambda q: jnp.sum(bk.radial_comoving_distance(q, d["a"])))(c), bk.radial_comoving_distance(c, d["a"]))[1],
        lambda p, d: chi(p, d["a"]),
    ),
    "other": (lambda c, d: R(bk.H(c, d["a"])), lambda p, d: R(H(p, d["a"]))),
}
GROWTH = {
    "D": (lambda c, d: bk.growth_factor(c, d["a"]), lambda p, d: growth(p, d["a"], d.get("gamma"))),
    "f": (lambda c, d: bk.growth_rate(c, d["a"]), lambda p, d: growth_rate(p, d["a"], d.get("gamma"))),
    "jit-D": (lambda c, d: jax.jit(lambda a: bk.growth_factor(c, a))(d["a"]), lambda p, d: growth(p, d["a"], d.get("gamma"))),
    "jit-f": (lambda c, d: jax.jit(lambda a: bk.growth_rate(c, a))(d["a"]), lambda p, d: growth_rate(p, d["a"], d.get("gamma"))),
    "vmap-D": (
        lambda c, d: jax.vmap(lambda a: bk.growth_factor(c, a))(jnp.stack([d["a"], d["b"]])),
        lambda p, d: jnp.stack([growth(p, d["a"], d.get("gamma")), growth(p, d["b"], d.get("gamma"))]),
    ),
    "jvp-f": (
        lambda c, d: jax.jvp(lambda a: bk.growth_rate(c, a), (d["a"],), (1.0,))[0],
        lambda p, d: growth_rate(p, d["a"], d.get("gamma")),
    ),
    "chi": CALLS["chi"],
}


def history(table, names, c, d):
    r = None
    for n in names:
        r = table[n][0](c, d)
    return R(r)


def obligations(tier):
    obs = []
    big = tier != "quick"

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-7)
        kw.setdefault("rtol", 1e-6)
        kw.setdefault("budget", 90)
        kw.setdefault("eager", 1)
        kw.setdefault("points", 4)
        kw.setdefault("shapes", False)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    A = dict(a=In(0.05, 1.0, special=(1.0,)), b=In(0.05, 1.0))
    P = {n: In(*BOX[n], special=SPECIAL.get(n, ())) for n in (("Omega_c", "Omega_k", "w0") if big else ("Omega_c", "Omega_k"))}
    for first in CALLS:
        if not big and first in ("other", "angular"):
            continue
        last = list(CALLS)
        for i, part in enumerate((last[:7], last[7:]) if big else (["chi", "chi-steps", "a-of-chi", "transverse"],)):
            eq(
                "distances/%s/%d" % (first, i),
                dict(P, **A),
                lambda first=first, part=part, **d: [history(CALLS, (first, n), cosmology(d), d) for n in part],
                lambda part=part, **d: [R(CALLS[n][1](params(d), d)) for n in part],
                "after %s on the same cosmology" % first,
            )
    triples = [
        ("jit-a", "chi", "chi-steps"),
        ("chi-steps", "jit-a", "a-of-chi"),
        ("grad-c", "jit-a-steps", "chi-steps"),
        ("vmap-a", "jvp-a", "transverse"),
        ("chi-amin", "chi-steps", "chi-both"),
        ("jvp-a", "a-of-chi", "chi"),
        ("chi-both", "vmap-a", "jit-c"),
    ]
    if big:
        triples += [(x, y, z) for x in list(CALLS)[::3] for y in list(CALLS)[1::3] for z in list(CALLS)[2::4]]
    for t in triples:
        eq(
            "distances/" + ",".join(t),
            dict(P, **A),
            lambda t=t, **d: history(CALLS, t, cosmology(d), d),
            lambda t=t, **d: R(CALLS[t[-1]][1](params(d), d)),
            "three calls on the same cosmology",
        )
    seqs = [("D", "f"), ("f", "D"), ("D", "chi"), ("chi", "D"), ("jit-D", "D"), ("jit-D", "f"), ("jit-f", "D"), ("vmap-D", "D"), ("jvp-f", "f"), ("jit-f", "jit-D", "f"), ("D", "vmap-D", "D")]
    Q = {n: In(*BOX[n]) for n in ("Omega_c",)}
    for g in (False, True):
        G = dict(gamma=In(0.4, 0.7)) if g else {}
        for t in seqs:
            if not g and not big and t in (("D", "chi"), ("chi", "D"), ("D", "vmap-D", "D"), ("jit-D", "f")):
                continue
            eq(
                "growth%s/%s" % ("-gamma" if g else "", ",".join(t)),
                dict(Q, **A, **G),
                lambda t=t, **d: history(GROWTH, t, cosmology(d), d),
                lambda t=t, **d: R(GROWTH[t[-1]][1](params(d), d)),
                "growth after other calls on the same cosmology",
            )
    # several cosmologies in turns
    C2 = dict(Omega_c=In(*BOX["Omega_c"]), other=In(*BOX["Omega_c"]))
    turn = lambda d: (dict(Omega_c=d["Omega_c"]), dict(Omega_c=d["other"]))
    for n in ("chi", "a-of-chi", "jit-a", "jit-c"):
        eq(
            "turns/" + n,
            dict(C2, **A),
            lambda n=n, **d: (lambda x, y: [R(CALLS[n][0](c, d)) for c in (x, y, x, y)])(*[cosmology(q) for q in turn(d)]),
            lambda n=n, **d: (lambda x, y: [R(CALLS[n][1](p, d)) for p in (x, y, x, y)])(*[params(q) for q in turn(d)]),
            "two cosmologies in turns",
        )
    for n in ("D", "jit-f"):
        eq(
            "turns/" + n,
            dict(C2, **A),
            lambda n=n, **d: (lambda x, y: [R(GROWTH[n][0](c, d)) for c in (x, y, x)])(*[cosmology(q) for q in turn(d)]),
            lambda n=n, **d: (lambda x, y: [R(GROWTH[n][1](p, {k: v for k, v in d.items()})) for p in (x, y, x)])(*[params(q) for q in turn(d)]),
            "two cosmologies in turns",
        )
    eq(
        "turns/gamma",
        dict(Omega_c=In(*BOX["Omega_c"]), g=In(0.4, 0.7), **A),
        lambda **d: (lambda x, y: [R(bk.growth_factor(c, d["a"])) for c in (x, y, x)])(jc.Cosmology(**params(d), gamma=d["g"]), jc.Cosmology(**params(d))),
        lambda **d: (lambda x, y: [x, y, x])(R(growth(params(d), d["a"], d["g"])), R(growth(params(d), d["a"]))),
        "with and without a growth index in turns",
    )
    # power spectra
    NS = dict(n_s=In(0.8, 1.1), sigma8=In(0.5, 1.2), k=In(1e-2, 1.0), a=In(0.1, 1.0))
    lin = lambda d, c: pw.linear_matter_power(c, d["k"], d["a"], any_transfer)
    eq(
        "power/after",
        NS,
        lambda **d: (lambda c: [(bk.radial_comoving_distance(c, d["a"], steps=16), jax.jit(lambda k: pw.linear_matter_power(c, k, d["a"], any_transfer))(2 * d["k"]), lin(d, c))[2], lin(d, c)])(cosmology(d)),
        lambda **d: [lin(d, cosmology(d))] * 2,
        "linear power after other calls on the same cosmology",
        rtol=1e-6,
        atol=0.0,
    )
    # every power call after every other: on a used cosmology as on a fresh one
    TG = lambda cosmo, k, q=1.0: 2.0 / (1.0 + 5.0 * q * k) ** 2 * TF(k, cosmo.Omega_b, q) ** 2
    hf = lambda pres: (lambda c, d: pw.halofit(c, d["k"], jnp.atleast_1d(d["a"]), any_transfer, prescription=pres))
    POWER = {
        "lin": lambda c, d: pw.linear_matter_power(c, d["k"], d["a"], any_transfer),
        "lin-b": lambda c, d: pw.linear_matter_power(c, d["k"], d["b"], any_transfer),
        "lin-other": lambda c, d: pw.linear_matter_power(c, d["k"], d["a"], TG),
        "lin-options": lambda c, d: pw.linear_matter_power(c, d["k"], d["a"], any_transfer, q=2.0),
        "variance": lambda c, d: pw.sigmasqr(c, 8.0, any_transfer),
        "variance-R": lambda c, d: pw.sigmasqr(c, 5.0, any_transfer),
        "variance-k": lambda c, d: pw.sigmasqr(c, 8.0, any_transfer, kmin=1e-3, kmax=10.0),
        "variance-other": lambda c, d: pw.sigmasqr(c, 8.0, TG),
        "primordial": lambda c, d: pw.primordial_matter_power(c, d["k"]),
        "eh": lambda c, d: tkl.Eisenstein_Hu(c, d["k"]),
        "eh-smooth": lambda c, d: tkl.Eisenstein_Hu(c, d["k"], type="eisenhu"),
        "smith": hf("smith2003"),
        "takahashi": hf("takahashi2012"),
        "takahashi-b": lambda c, d: pw.halofit(c, d["k"], jnp.atleast_1d(d["b"]), any_transfer),
        "takahashi-other": lambda c, d: pw.halofit(c, d["k"], jnp.atleast_1d(d["a"]), TG),
        "nonlinear": lambda c, d: pw.nonlinear_matter_power(c, d["k"], d["a"], any_transfer, pw.linear),
        "jit-lin": lambda c, d: jax.jit(lambda k: pw.linear_matter_power(c, k, d["a"], any_transfer))(d["k"]),
        "distance": lambda c, d: bk.radial_comoving_distance(c, d["a"], steps=32),
        "growth": lambda c, d: bk.growth_rate(c, d["a"]),
    }
    heavy = [n for n in POWER if n in ("smith", "takahashi", "takahashi-b", "takahashi-other")]
    light = [n for n in POWER if n not in heavy]
    BASE = dict(NS, b=In(0.1, 1.0), k=In(1e-2, 1.0))

    def after(first, last, fix={}, free=BASE):
        eq(
            "power/%s/%s" % (first, "others" if len(last) > 4 else ",".join(last)),
            free,
            lambda **d: (lambda c: (POWER[first](c, d), [R(POWER[n](c, d)) for n in last])[1])(cosmology(d)),
            lambda **d: [R(POWER[n](cosmology(d), d)) for n in last],
            "power spectra after %s on the same cosmology" % first,
            rtol=1e-6,
            atol=0.0,
        )

    for first in light if big else ("lin", "lin-other", "lin-options", "variance-R", "variance-k", "eh", "jit-lin"):
        after(first, light if big else [n for n in light if n not in ("distance", "growth", "jit-lin", "primordial")])
    for first in heavy + ["lin-other", "eh"]:
        for last in heavy:
            if first != last and (big or (first, last) in (("smith", "takahashi"), ("takahashi", "smith"), ("takahashi-other", "takahashi"), ("takahashi-b", "takahashi"))):
                after(first, [last])
    after("takahashi-b", ["lin", "variance", "growth"])
    eq(
        "turns/power",
        dict(C2, s=In(0.5, 1.2), t=In(0.5, 1.2), k=In(1e-2, 1.0), a=In(0.1, 1.0)),
        lambda **d: (lambda x, y: [R(lin(d, c)) for c in (x, y, x)])(cosmology(dict(Omega_c=d["Omega_c"], sigma8=d["s"])), cosmology(dict(Omega_c=d["other"], sigma8=d["t"]))),
        lambda **d: (lambda x, y: [R(lin(d, cosmology(c))) for c in (x, y, x)])(dict(Omega_c=d["Omega_c"], sigma8=d["s"]), dict(Omega_c=d["other"], sigma8=d["t"])),
        "linear power of two cosmologies in turns",
        rtol=1e-6,
        atol=0.0,
    )
    # redshift distributions
    Z = dict(p=In(0.5, 2.0), q=In(0.5, 2.0), z=In(0.01, 2.0), y=In(0.01, 2.0))
    nzf = lambda p, zmax, z: normalised(lambda t: PZ(t, p), zmax)(jnp.asarray(z))
    NZ = {
        "call": lambda o, d: o(d["z"]),
        "pz": lambda o, d: o.pz_fn(d["z"]),
        "jit": lambda o, d: jax.jit(lambda z: o(z))(d["y"]),
        "vmap": lambda o, d: jax.vmap(lambda z: o(z))(jnp.stack([d["y"], d["z"]])),
        "jvp": lambda o, d: jax.jvp(lambda z: o(z), (d["y"],), (1.0,)),
        "jit-o": lambda o, d: jax.jit(lambda q: q(d["y"]))(o),
        "grad-o": lambda o, d: jax.grad(lambda q: q(d["y"]))(o),
        "array": lambda o, d: o(jnp.stack([d["y"], 2 * d["y"]])),
        "as-bin": lambda o, d: pr.NumberCounts([o], any_bias(1.0)).kernel(jc.Cosmology(**FID), jnp.stack([d["y"]]), 10.0),
        "shifted": lambda o, d: rds.systematic_shift(o, 0.05, zmax=1.5)(d["y"]),
    }
    for n, f in NZ.items():
        for zmax in (2.5,):
            eq(
                "nz/%s" % n,
                Z,
                lambda f=f, zmax=zmax, **d: (lambda o: (f(o, d), o(d["z"]), o(d["z"]))[1:])(any_nz(d["p"], zmax=zmax)),
                lambda zmax=zmax, **d: (lambda r: (r, r))(nzf(d["p"], zmax, d["z"])),
                "normalised n(z) after %s" % n,
                stubs=(),
            )
    eq(
        "nz/shift-after-parent",
        dict(Z, s=In(-0.1, 0.1)),
        lambda **d: (lambda o: (o(d["y"]), (lambda t: [t(d["z"]), o(d["z"]), t(d["z"])])(rds.systematic_shift(o, d["s"], zmax=2.0)))[1])(any_nz(d["p"], zmax=2.5)),
        lambda **d: (lambda f: [f(d["z"]), nzf(d["p"], 2.5, d["z"]), f(d["z"])])(normalised(lambda t: PZ(jnp.maximum(jnp.asarray(t) - d["s"], 0.0), d["p"]), 2.0)),
        "a shifted distribution whose parent has been used",
        stubs=(),
    )
    eq(
        "nz/turns",
        Z,
        lambda **d: (lambda o, u: [o(d["z"]), u(d["z"]), o(d["y"]), u(d["y"])])(any_nz(d["p"], zmax=2.5), any_nz(d["q"], zmax=1.5)),
        lambda **d: [nzf(d["p"], 2.5, d["z"]), nzf(d["q"], 1.5, d["z"]), nzf(d["p"], 2.5, d["y"]), nzf(d["q"], 1.5, d["y"])],
        "two distributions in turns",
        stubs=(),
    )
    S = dict(a=In(1.0, 3.0), b=In(0.8, 2.0), z0=In(0.3, 1.0), z=In(0.1, 2.0))
    eq(
        "nz/smail",
        S,
        lambda **d: (lambda o: (jax.jit(lambda z: o(z))(0.5), o(d["z"]))[1])(rds.smail_nz(d["a"], d["b"], d["z0"], zmax=2.5)),
        lambda **d: (lambda f: normalised(f, 2.5)(d["z"]))(smail(d["a"], d["b"], d["z0"])),
        "a Smail distribution first used inside jit",
        stubs=(),
    )
    # probes
    c1, c2 = dict(FID), dict(FID, Omega_c=0.3, w0=-0.8)
    K = dict(p=In(0.5, 2.0), q=In(0.5, 2.0), m=In(-0.2, 0.2))
    z1, z2 = jnp.asarray([0.5]), jnp.asarray([0.2, 0.9])

    def wl(d, zmax=2.5, m=True, **kw):
        return pr.WeakLensing([any_nz(d["p"], zmax=zmax), any_nz(d["q"], zmax=zmax)], multiplicative_bias=d["m"] if m else 0.0, **kw)

    def wls(d, pc, z, ell, zmax=2.5, m=True):
        b = [ext(d["p"], zmax), ext(d["q"], zmax)]
        return lensing_kernel(dict(FID, **pc), b, z, ell, m=[d["m"]] * 2 if m else None)

    eq(
        "probes/lensing",
        K,
        lambda **d: (lambda w, x, y: [w.kernel(x, z1, 10.0), w.kernel(y, z1, 10.0), w.kernel(x, z1, 100.0), w.kernel(x, z2, 10.0), w.kernel(x, z1, 10.0)])(wl(d), jc.Cosmology(**c1), jc.Cosmology(**c2)),
        lambda **d: [wls(d, c1, z1, 10.0), wls(d, c2, z1, 10.0), wls(d, c1, z1, 100.0), wls(d, c1, z2, 10.0), wls(d, c1, z1, 10.0)],
        "lensing kernels of one probe, cosmologies, redshifts and multipoles in turns",
        rtol=1e-5,
    )
    eq(
        "probes/lensing-settings",
        K,
        lambda **d: (lambda x: [w.kernel(x, z1, 10.0) for w in (wl(d), wl(d, 1.5), wl(d, m=False), wl(d))])(jc.Cosmology(**c1)),
        lambda **d: [wls(d, c1, z1, 10.0), wls(d, c1, z1, 10.0, 1.5), wls(d, c1, z1, 10.0, m=False), wls(d, c1, z1, 10.0)],
        "probes which differ by their settings, in turns",
        rtol=1e-5,
    )
    eq(
        "probes/lensing-traced",
        K,
        lambda **d: (lambda w, x: (jax.jit(lambda z: w.kernel(x, z, 10.0))(z2), jax.jvp(lambda o: o.noise(), (w,), (w,)), w.kernel(x, z1, 10.0))[2])(wl(d), jc.Cosmology(**c1)),
        lambda **d: wls(d, c1, z1, 10.0),
        "a probe and a cosmology first used inside jit",
        rtol=1e-5,
    )
    nc = lambda d, s=1.0: pr.NumberCounts([any_nz(d["p"], zmax=2.5), any_nz(d["q"], zmax=2.0)], any_bias(s))
    ncs = lambda d, pc, z, s=1.0: density_rows(dict(FID, **pc), [ext(d["p"], 2.5), ext(d["q"], 2.0)], [ubias(s, pc["sigma8"])] * 2, z)
    eq(
        "probes/counts",
        K,
        lambda **d: (lambda w, x, y: [w.kernel(x, z1, 10.0), w.kernel(y, z2, 10.0), nc(d, 2.0).kernel(x, z1, 10.0), w.kernel(x, z1, 20.0)])(nc(d), jc.Cosmology(**c1), jc.Cosmology(**c2)),
        lambda **d: [ncs(d, c1, z1), ncs(d, c2, z2), ncs(d, c1, z1, 2.0), ncs(d, c1, z1)],
        "clustering kernels of one probe, in turns",
        rtol=1e-5,
    )
    ells = jnp.asarray([20.0, 100.0])
    pk2 = lambda cosmo, k, a, transfer_fn=None: 2.0 * PK(k, a) * cosmo.n_s
    rows = lambda *ps: (lambda z, l: jnp.stack([KER(z, l, x) for x in ps]))
    eq(
        "spectra",
        dict(p=In(0.5, 2.0), q=In(0.5, 2.0)),
        lambda **d: (
            lambda x, y, u, v: [
                angular_cl(x, ells, u, nonlinear_fn=pk_any),
                angular_cl(y, ells, u, nonlinear_fn=pk_any),
                angular_cl(x, ells, v, nonlinear_fn=pk_any),
                angular_cl(x, ells, u, nonlinear_fn=pk2),
                angular_cl(x, ells, u, nonlinear_fn=pk_any),
            ]
        )(jc.Cosmology(**c1), jc.Cosmology(**c2), [any_probe([d["p"]], zmax=2.0)], [any_probe([d["q"]], zmax=1.5)]),
        lambda **d: [
            limber(c1, rows(d["p"]), 2.0, ells, PK),
            limber(c2, rows(d["p"]), 2.0, ells, PK),
            limber(c1, rows(d["q"]), 1.5, ells, PK),
            limber(c1, rows(d["p"]), 2.0, ells, lambda k, a: 2.0 * PK(k, a) * FID["n_s"]),
            limber(c1, rows(d["p"]), 2.0, ells, PK),
        ],
        "angular spectra, cosmologies, probes and models in turns",
        rtol=1e-5,
        atol=0.0,
    )
    eq(
        "spectra-traced",
        dict(p=In(0.5, 2.0), Omega_c=In(0.2, 0.4)),
        lambda **d: (
            lambda x, u: [
                jax.jit(lambda l: angular_cl(x, l, u, nonlinear_fn=pk_any))(ells),
                bk.radial_comoving_distance(x, jnp.asarray([0.5]), steps=32),
                angular_cl(x, ells, u, nonlinear_fn=pk_any),
            ][::2]
        )(cosmology(d), [any_probe([d["p"]], zmax=2.0)]),
        lambda **d: (lambda r: [r, r])(limber(params(d), rows(d["p"]), 2.0, ells, PK)),
        "angular spectra inside jit, then outside on the same cosmology",
        rtol=1e-5,
        atol=0.0,
    )
    return obs
