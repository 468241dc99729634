"""C22 batched evaluation equals evaluation one by one"""
import jax

import jax_cosmo.background as bk
import jax_cosmo.bias as jb
import jax_cosmo.power as pw
import jax_cosmo.probes as pr
import jax_cosmo.transfer as tk
from jax_cosmo.angular_cl import angular_cl, noise_cl

from .bins import *
from .c11 import any_transfer
from .c17 import any_probe, pk_any
from .c19 import arr
from jax_cosmo.likelihood import gaussian_log_likelihood


def one(r):
    """The only element of a result for a scalar argument"""
    r = jnp.asarray(r)
    assert r.size == 1, r.shape
    return r.reshape(())


def loop(f, x):
    return jnp.stack([one(f(x[i])) for i in range(x.shape[0])])


def obligations(tier):
    obs = []
    ci = cosmo_inputs
    big = tier != "quick"
    A = lambda n: In(2e-3, 1.0, (n,), special=(1.0, 0.5))
    K = lambda n: In(1e-4, 10.0, (n,))
    Z = lambda n: In(0.0, 2.5, (n,))

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-9)
        kw.setdefault("rtol", 1e-6)
        kw.setdefault("eager", 1)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def batch(name, inputs, f, n, X, **kw):
        """f(d, x)"""
        eq(
            "batch/%s/%d" % (name, n),
            dict(inputs, x=X(n)),
            lambda **d: f(d, d["x"]),
            lambda **d: loop(lambda x: f(d, x), d["x"]),
            "%s at %d arguments: each element is what the function gives for it alone" % (name, n),
            **kw,
        )

    # ---------------------------------------------------------------- functions of the scale factor
    back = dict(
        w=bk.w,
        f_de=bk.f_de,
        Esqr=bk.Esqr,
        H=bk.H,
        Omega_m_a=bk.Omega_m_a,
        Omega_de_a=bk.Omega_de_a,
        chi=bk.radial_comoving_distance,
        dchioverda=bk.dchioverda,
        transverse=bk.transverse_comoving_distance,
        angular=bk.angular_diameter_distance,
        growth=bk.growth_factor,
        rate=bk.growth_rate,
    )
    for nm, f in back.items():
        for n in (2, 3) if big else (3,):
            batch(nm, ci(), lambda d, x, f=f: f(cosmology(d), x), n, A)
        if nm in ("growth", "rate"):
            batch(nm + "/gamma", ci(gamma=True), lambda d, x, f=f: f(cosmology(d), x), 2, A)
        # vmap over the parameters: one cosmology per element
        P = ("Omega_c", "w0", "Omega_k") if nm not in ("growth", "rate") else ("Omega_c", "w0")
        eq(
            "vmap/" + nm,
            dict(q=In(0.0, 1.0, (2, len(P))), a=A(1)),
            lambda f=f, P=P, **d: jax.vmap(
                lambda q: f(cosmology({k: BOX[k][0] + q[i] * (BOX[k][1] - BOX[k][0]) for i, k in enumerate(P)}), d["a"])
            )(d["q"]),
            lambda f=f, P=P, **d: jnp.stack(
                [
                    f(cosmology({k: BOX[k][0] + d["q"][j, i] * (BOX[k][1] - BOX[k][0]) for i, k in enumerate(P)}), d["a"])
                    for j in range(2)
                ]
            ),
            "vmap over parameters of " + nm,
            shapes=False,
        )
        eq(
            "vmapa/" + nm,
            dict(ci(("Omega_c", "w0", "wa", "Omega_k")), x=A(2)),
            lambda f=f, **d: jax.vmap(lambda a: one(f(cosmology(d), a)))(d["x"]),
            lambda f=f, **d: loop(lambda a: f(cosmology(d), a), d["x"]),
            "vmap over the scale factor of %s, the cosmology being shared" % nm,
        )
        if not big and nm not in ("Esqr", "chi", "transverse", "Omega_de_a"):
            continue
        eq(
            "jit/" + nm,
            dict(ci(), x=A(2)),
            lambda f=f, **d: jax.jit(lambda c, a: f(c, a))(cosmology(d), d["x"]),
            lambda f=f, **d: f(cosmology(d), d["x"]),
            "jit of %s with the cosmology as an argument" % nm,
        )
    batch("a_of_chi", ci(), lambda d, x: bk.a_of_chi(cosmology(d), x), 3, lambda n: In(1.0, 6000.0, (n,)))

    # ---------------------------------------------------------------- spectra
    for ty in ("eisenhu", "eisenhu_osc"):
        batch("transfer/" + ty, ci(), lambda d, x, ty=ty: tk.Eisenstein_Hu(cosmology(d), x, type=ty), 2, K, atol=1e-12)
        eq(
            "vmap/transfer/" + ty,
            dict(q=In(0.1, 0.5, (2,)), k=K(1)),
            lambda ty=ty, **d: jax.vmap(lambda q: tk.Eisenstein_Hu(cosmology({"Omega_c": q}), d["k"], type=ty))(d["q"]),
            lambda ty=ty, **d: jnp.stack([tk.Eisenstein_Hu(cosmology({"Omega_c": d["q"][j]}), d["k"], type=ty) for j in range(2)]),
            "vmap over Omega_c of the transfer function",
            atol=1e-12,
        )
    batch("primordial", ci(), lambda d, x: pw.primordial_matter_power(cosmology(d), x), 3, K, atol=0.0)
    PR = ("n_s", "sigma8", "Omega_c")
    lin = lambda d, k, a: pw.linear_matter_power(cosmology(d), k, a, any_transfer)
    non = lambda d, k, a: pw.halofit(cosmology(d), k, a, any_transfer)
    for nm, f, I, q in (("linear", lin, ci(PR), {}), ("halofit", non, ci(("n_s", "sigma8")), dict(rtol=1e-5, points=4, budget=110))):
        I1 = dict(I, k=K(2), a=In(0.05, 1.0, special=(1.0,)))
        eq(
            nm + "/k",
            I1,
            lambda f=f, **d: f(d, d["k"], d["a"]),
            lambda f=f, **d: loop(lambda k: f(d, k, d["a"]), d["k"]),
            nm + ": an array of wave numbers at one scale factor",
            atol=0.0,
            **q,
        )
        I2 = dict(I, k=In(1e-4, 10.0), a=In(0.05, 1.0, (2,), special=(1.0,)))
        eq(
            nm + "/a",
            I2,
            lambda f=f, **d: f(d, d["k"], d["a"]),
            lambda f=f, **d: loop(lambda a: f(d, d["k"], a), d["a"]),
            nm + ": one wave number at an array of scale factors",
            atol=0.0,
            **q,
        )
        I3 = dict(I, k=K(2), a=In(0.05, 1.0, (2,), special=(1.0,)))
        eq(
            nm + "/ka",
            I3,
            lambda f=f, **d: f(d, d["k"], d["a"]),
            lambda f=f, **d: jnp.stack([one(f(d, d["k"][i], d["a"][i])) for i in range(2)]),
            nm + ": as many wave numbers as scale factors, element by element",
            atol=0.0,
            **q,
        )
    big and batch(
        "nonlinear_matter_power",
        ci(("n_s", "sigma8")),
        lambda d, x: pw.nonlinear_matter_power(cosmology(d), x, 0.5, transfer_fn=any_transfer),
        2,
        K,
        rtol=1e-5,
        points=4,
        budget=110,
    )

    # ---------------------------------------------------------------- redshift distributions
    S = dict(al=In(0.5, 4.0), be=In(0.5, 3.0), z0=In(0.1, 2.0))
    batch("smail_nz", S, lambda d, x: rds.smail_nz(d["al"], d["be"], d["z0"], zmax=3.0)(x), 3, Z)
    batch("any_nz", dict(p=In(0.5, 2.0)), lambda d, x: any_nz(d["p"], zmax=3.0)(x), 3, Z)
    batch("kde_nz", dict(cat=In(0.1, 2.0, (2,)), w=In(0.1, 2.0, (2,))), lambda d, x: rds.kde_nz(d["cat"], d["w"], bw=0.2, zmax=3.0)(x), 2, Z)
    batch("delta_nz", dict(z0=In(0.1, 2.0)), lambda d, x: rds.delta_nz(d["z0"])(x), 3, Z, points=16)
    batch(
        "systematic_shift",
        dict(p=In(0.5, 2.0), s=In(-0.2, 0.2)),
        lambda d, x: rds.systematic_shift(any_nz(d["p"], zmax=3.0), d["s"], zmax=3.0)(x),
        2,
        Z,
    )

    # ---------------------------------------------------------------- biases and kernels
    batch("constant_linear_bias", dict(b=In(0.1, 5.0)), lambda d, x: jb.constant_linear_bias(d["b"])(cosmology({}), x) * jnp.ones(jnp.shape(x)), 2, Z)
    batch("inverse_growth_linear_bias", dict(ci(("Omega_c", "w0")), b=In(0.1, 5.0)), lambda d, x: jb.inverse_growth_linear_bias(d["b"])(cosmology(d), x), 2, Z)
    batch(
        "des_y1_ia_bias",
        dict(b=In(0.1, 5.0), e=In(-3.0, 3.0), z0=In(0.1, 1.0)),
        lambda d, x: jb.des_y1_ia_bias(d["b"], d["e"], d["z0"])(cosmology({}), x),
        3,
        Z,
    )
    KI = dict(ci(("Omega_c", "w0")), p=In(0.5, 2.0), ell=In(2.0, 3000.0))
    for nm, f in (
        ("lensing", lambda d, z: pr.weak_lensing_kernel(cosmology(d), [any_nz(d["p"], zmax=3.0), any_nz(1.2, zmax=2.0)], z, d["ell"])),
        ("density", lambda d, z: pr.density_kernel(cosmology(d), [any_nz(d["p"], zmax=3.0)] * 2, any_bias(1.0), z, d["ell"])),
        ("nla", lambda d, z: pr.nla_kernel(cosmology(d), [any_nz(d["p"], zmax=3.0)] * 2, any_bias(1.0), z, d["ell"])),
        (
            "WeakLensing",
            lambda d, z: pr.WeakLensing([any_nz(d["p"], zmax=3.0)], ia_bias=any_bias(1.0), multiplicative_bias=0.01).kernel(cosmology(d), z, d["ell"]),
        ),
        ("NumberCounts", lambda d, z: pr.NumberCounts([any_nz(d["p"], zmax=3.0)], any_bias(1.0)).kernel(cosmology(d), z, d["ell"])),
    ):
        if nm == "nla" and not big:
            continue
        eq(
            "kernel/" + nm,
            dict(KI, z=Z(2)),
            lambda f=f, **d: f(d, d["z"]),
            lambda f=f, **d: jnp.concatenate([jnp.reshape(f(d, d["z"][i]), (-1, 1)) for i in range(2)], axis=1),
            "%s kernel at two redshifts, tracer by tracer" % nm,
        )
        if nm == "density" and not big:
            continue
        eq(
            "kernelell/" + nm,
            dict({k: v for k, v in KI.items() if k != "ell"}, z=Z(2), ell=In(2.0, 3000.0, (2,))),
            lambda f=f, **d: jax.vmap(lambda l: f(dict(d, ell=l), d["z"]))(d["ell"]),
            lambda f=f, **d: jnp.stack([f(dict(d, ell=d["ell"][i]), d["z"]) for i in range(2)]),
            "%s kernel, vmap over the multipole" % nm,
        )
    # ---------------------------------------------------------------- angular spectra
    probes = lambda d: [any_probe([d["p"][0]], zmax=2.0), any_probe([d["p"][1]], zmax=1.0)]
    for n in (2, 3):
        eq(
            "angular_cl/%d" % n,
            dict(p=In(0.5, 2.0, (2,)), ell=In(2.0, 3000.0, (n,))),
            lambda **d: angular_cl(cosmology({}), d["ell"], probes(d), nonlinear_fn=pk_any),
            lambda n=n, **d: jnp.concatenate(
                [angular_cl(cosmology({}), d["ell"][i : i + 1], probes(d), nonlinear_fn=pk_any) for i in range(n)], axis=1
            ),
            "spectra at %d multipoles" % n,
            atol=1e-30,
        )
        eq(
            "noise_cl/%d" % n,
            dict(p=In(0.5, 2.0, (2,)), ell=In(2.0, 3000.0, (n,))),
            lambda **d: noise_cl(d["ell"], probes(d)),
            lambda n=n, **d: jnp.concatenate([noise_cl(d["ell"][i : i + 1], probes(d)) for i in range(n)], axis=1),
            "noise at %d multipoles" % n,
        )
    eq(
        "vmap/angular_cl",
        dict(q=In(0.1, 0.5, (2,)), p=In(0.5, 2.0, (2,)), ell=In(2.0, 3000.0, (1,))),
        lambda **d: jax.vmap(lambda q: angular_cl(cosmology({"Omega_c": q}), d["ell"], probes(d), nonlinear_fn=pk_any))(d["q"]),
        lambda **d: jnp.stack([angular_cl(cosmology({"Omega_c": d["q"][i]}), d["ell"], probes(d), nonlinear_fn=pk_any) for i in range(2)]),
        "vmap over Omega_c of the angular spectra",
        atol=1e-30,
        budget=110,
    )
    eq(
        "vmap/likelihood",
        dict(y=In(-2.0, 2.0, (2, 2)), m=In(-2.0, 2.0, (2,)), v=In(0.5, 2.0, (2,)), c=In(-0.4, 0.4)),
        lambda **d: jax.vmap(lambda y: gaussian_log_likelihood(y, d["m"], arr([[d["v"][0], d["c"]], [d["c"], d["v"][1]]])))(d["y"]),
        lambda **d: jnp.stack(
            [gaussian_log_likelihood(d["y"][i], d["m"], arr([[d["v"][0], d["c"]], [d["c"], d["v"][1]]])) for i in range(2)]
        ),
        "vmap of the likelihood over data vectors",
    )
    return obs
