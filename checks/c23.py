"""C23 each quantity depends on the parameters it should and on no other"""
import jax_cosmo.background as bk
import jax_cosmo.bias as jb
import jax_cosmo.power as pw
import jax_cosmo.probes as pr
import jax_cosmo.transfer as tk
from jax_cosmo.angular_cl import angular_cl, gaussian_cl_covariance, noise_cl

from .bins import *
from .c11 import TF, any_transfer
from .c17 import KER, any_probe, pk_any


def obligations(tier):
    obs = []
    big = tier != "quick"
    A = lambda *s: In(2e-3, 1.0, s, special=(1.0, 0.5))
    K = lambda *s: In(1e-4, 10.0, s)
    Z = lambda *s: In(0.0, 2.5, s)

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-9)
        kw.setdefault("rtol", 1e-7)
        kw.setdefault("eager", 1)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def cosm(d, gamma, other=()):
        """The cosmology of the inputs, with the primed values of the parameters `other`"""
        p = {k: (d[k + "_"] if k in other else d[k]) for k in NAMES}
        if gamma:
            p["gamma"] = d["gamma_" if "gamma" in other else "gamma"]
        return jc.Cosmology(**p)

    def indep(name, f, irrelevant, inputs, gamma=False, **kw):
        """f(c, d) is the same for two cosmologies which differ in the parameters `irrelevant`"""
        I = cosmo_inputs(gamma=gamma)
        I = dict(I, **{k + "_": I[k] for k in irrelevant}, **inputs)
        eq(
            name,
            I,
            lambda **d: f(cosm(d, gamma), d),
            lambda **d: f(cosm(d, gamma, irrelevant), d),
            "no dependence on " + ", ".join(irrelevant),
            **kw,
        )

    H3 = ("h", "n_s", "sigma8")
    back = dict(
        w=bk.w,
        f_de=bk.f_de,
        Esqr=bk.Esqr,
        H=bk.H,
        Omega_m_a=bk.Omega_m_a,
        Omega_de_a=bk.Omega_de_a,
        chi=bk.radial_comoving_distance,
        dchioverda=bk.dchioverda,
        transverse=bk.transverse_comoving_distance,
        angular=bk.angular_diameter_distance,
    )
    for nm, f in back.items():
        indep("background/" + nm, lambda c, d, f=f: f(c, d["a"]), H3 + ("gamma",), dict(a=A(2)), gamma=True)
    indep("a_of_chi", lambda c, d: bk.a_of_chi(c, d["x"]), H3 + ("gamma",), dict(x=In(0.0, 6000.0, (2,))), gamma=True)
    # dark energy alone
    for nm in ("w", "f_de"):
        indep("de/" + nm, lambda c, d, f=back[nm]: f(c, d["a"]), ("Omega_c", "Omega_b", "Omega_k"), dict(a=A(2)))
    indep("growth/ode", lambda c, d: [bk.growth_factor(c, d["a"]), bk.growth_rate(c, d["a"])], H3, dict(a=A()))
    indep("growth/gamma", lambda c, d: [bk.growth_factor(c, d["a"]), bk.growth_rate(c, d["a"])], H3, dict(a=A()), gamma=True)

    # only the total matter density enters
    for nm, f in dict(back, growth=bk.growth_factor, rate=bk.growth_rate).items():
        I = dict({k: v for k, v in cosmo_inputs().items() if k not in ("Omega_c", "Omega_b")}, a=A(), M=In(0.15, 0.6), b=In(0.01, 0.1), b_=In(0.01, 0.1))
        eq(
            "matter/" + nm,
            I,
            lambda f=f, **d: f(cosmology(dict(d, Omega_c=d["M"] - d["b"], Omega_b=d["b"])), d["a"]),
            lambda f=f, **d: f(cosmology(dict(d, Omega_c=d["M"] - d["b_"], Omega_b=d["b_"])), d["a"]),
            "only Omega_c + Omega_b matters",
        )

    # spectra
    PK_ = ("Omega_c", "Omega_b", "h", "sigma8", "Omega_k", "w0", "wa", "gamma")
    indep("primordial", lambda c, d: pw.primordial_matter_power(c, d["k"]), PK_, dict(k=K(2)), gamma=True, atol=0.0)
    for ty in ("eisenhu", "eisenhu_osc"):
        indep(
            "transfer/" + ty,
            lambda c, d, ty=ty: tk.Eisenstein_Hu(c, d["k"], type=ty),
            ("n_s", "sigma8", "Omega_k", "w0", "wa", "gamma"),
            dict(k=K()),
            gamma=True,
            atol=1e-12,
        )
    indep(
        "sigmasqr",
        lambda c, d: pw.sigmasqr(c, 8.0, any_transfer),
        ("h", "sigma8", "Omega_k", "w0", "wa", "Omega_c"),
        {},
        atol=0.0,
        eager=1,
    )
    # the transfer function of any_transfer depends on Omega_b alone
    P1 = lambda c, k: pw.linear_matter_power(c, k, 1.0, any_transfer)
    indep("linear/today", lambda c, d: P1(c, d["k"]), ("h", "Omega_k", "w0", "wa", "Omega_c"), dict(k=K()), atol=0.0)
    eq(
        "linear/sigma8",
        dict(cosmo_inputs(("Omega_c", "n_s", "sigma8", "w0")), k=K(), a=A(), s=In(0.3, 1.5)),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"], any_transfer) * d["s"] ** 2,
        lambda **d: pw.linear_matter_power(cosmology(dict(d, sigma8=d["s"])), d["k"], d["a"], any_transfer) * d["sigma8"] ** 2,
        "P is proportional to sigma8^2",
        atol=0.0,
    )
    eq(
        "linear/shape",
        dict(cosmo_inputs(("Omega_c", "n_s", "w0")), k=K(2), a=A(2)),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"][0], d["a"][0], any_transfer)
        * pw.linear_matter_power(cosmology(d), d["k"][1], d["a"][1], any_transfer),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"][1], d["a"][0], any_transfer)
        * pw.linear_matter_power(cosmology(d), d["k"][0], d["a"][1], any_transfer),
        "the linear spectrum is the product of a function of k and one of a",
        atol=0.0,
    )
    eq(
        "linear/shape/w",
        dict(cosmo_inputs(("n_s", "w0", "wa", "sigma8")), k=K(2), w_=In(-2.0, -0.4), s_=In(0.3, 1.5)),
        lambda **d: P1(cosmology(d), d["k"][0]) * P1(cosmology(dict(d, w0=d["w_"], sigma8=d["s_"])), d["k"][1]),
        lambda **d: P1(cosmology(d), d["k"][1]) * P1(cosmology(dict(d, w0=d["w_"], sigma8=d["s_"])), d["k"][0]),
        "the shape of the linear spectrum does not depend on w0, wa, sigma8",
        atol=0.0,
    )

    # redshift distributions and biases
    G = dict(g=In(0.1, 50.0), g_=In(0.1, 50.0))
    for nm, mk in (
        ("smail", lambda d, g: rds.smail_nz(d["q"], 1.5, 0.7, zmax=3.0, gals_per_arcmin2=g)),
        ("any", lambda d, g: any_nz(d["q"], zmax=3.0, gals_per_arcmin2=g)),
        ("kde", lambda d, g: rds.kde_nz(jnp.stack([d["q"], 0.5 * d["q"]]), jnp.ones(2), bw=0.2, zmax=3.0, gals_per_arcmin2=g)),
        ("delta", lambda d, g: rds.delta_nz(d["q"], gals_per_arcmin2=g)),
        ("shift", lambda d, g: rds.systematic_shift(any_nz(d["q"], zmax=3.0, gals_per_arcmin2=g), 0.05, zmax=3.0)),
    ):
        eq(
            "nz/" + nm,
            dict(G, q=In(0.5, 2.0), z=Z(2)),
            lambda mk=mk, **d: mk(d, d["g"])(d["z"]),
            lambda mk=mk, **d: mk(d, d["g_"])(d["z"]),
            "the distribution does not depend on the number of galaxies",
        )
    indep(
        "bias/constant",
        lambda c, d: jb.constant_linear_bias(d["b"])(c, d["z"]) * jnp.ones(2),
        tuple(NAMES),
        dict(b=In(0.1, 5.0), z=Z(2)),
    )
    indep("bias/des", lambda c, d: jb.des_y1_ia_bias(d["b"], 1.3, 0.6)(c, d["z"]), tuple(NAMES), dict(b=In(0.1, 5.0), z=Z(2)))
    indep("bias/growth", lambda c, d: jb.inverse_growth_linear_bias(d["b"])(c, d["z"]), H3, dict(b=In(0.1, 5.0), z=Z(1)))

    # kernels
    indep(
        "kernel/lensing/cosmology",
        lambda c, d: pr.weak_lensing_kernel(c, [any_nz(d["p"], zmax=3.0)], d["z"], 30.0),
        H3 + ("gamma",),
        dict(p=In(0.5, 2.0), z=Z(1)),
        gamma=True,
    )
    indep(
        "kernel/density/cosmology",
        lambda c, d: pr.density_kernel(c, [any_nz(d["p"], zmax=3.0)], jb.constant_linear_bias(1.3), d["z"], 30.0),
        H3 + ("gamma",),
        dict(p=In(0.5, 2.0), z=Z(1)),
        gamma=True,
    )
    indep(
        "kernel/nla/cosmology",
        lambda c, d: pr.nla_kernel(c, [any_nz(d["p"], zmax=3.0)], jb.constant_linear_bias(1.3), d["z"], 30.0),
        H3,
        dict(p=In(0.5, 2.0), z=Z(1)),
    )
    two = lambda n: In(0.5, 2.0, (2,)) if n else In(0.5, 2.0)
    KI = dict(cosmo_inputs(("Omega_c",)), z=Z(1), ell=In(2.0, 3000.0), p=In(0.5, 2.0, (2,)), q=In(0.5, 2.0, (2,)), s=In(0.5, 2.0, (2,)), m=In(-0.1, 0.1, (2,)))

    def nc(d):
        b = [any_nz(d["p"][i], zmax=2.0 + i, gals_per_arcmin2=d["s"][i]) for i in range(2)]
        return pr.NumberCounts(b, [any_bias(d["q"][i]) for i in range(2)])

    def wl(d, ia):
        b = [any_nz(d["p"][i], zmax=2.0 + i, gals_per_arcmin2=d["s"][i]) for i in range(2)]
        return pr.WeakLensing(
            b,
            ia_bias=[any_bias(d["q"][i]) for i in range(2)] if ia else None,
            multiplicative_bias=[d["m"][i] for i in range(2)],
            sigma_e=[0.2 * d["s"][i] for i in range(2)],
        )

    for i in (0, 1):
        # the primed values replace all that belongs to the other bin, and the galaxies of both
        def change(d, i=i, own=("p", "q", "m")):
            r = dict(d)
            for k in ("p", "q", "m", "s"):
                r[k] = jnp.stack([d[k][j] if j == i and k in own else d[k + "_"][j] for j in range(2)])
            return r

        I = dict(KI, **{k + "_": KI[k] for k in ("p", "q", "m", "s")})
        for nm, mk in (("counts", nc), ("lensing", lambda d: wl(d, False)), ("lensing+ia", lambda d: wl(d, True))):
            eq(
                "kernel/%s/%d" % (nm, i),
                I,
                lambda mk=mk, i=i, **d: mk(d).kernel(cosmology(d), d["z"], d["ell"])[i],
                lambda mk=mk, i=i, ch=change, **d: mk(ch(d)).kernel(cosmology(d), d["z"], d["ell"])[i],
                "row %d depends on its own bin, biases and calibration only, and not on galaxy numbers or ellipticities" % i,
            )
        for nm, mk in (("counts", nc), ("lensing", lambda d: wl(d, False))):
            eq(
                "noise/%s/%d" % (nm, i),
                {k: v for k, v in I.items() if k not in ("Omega_c", "z", "ell")},
                lambda mk=mk, i=i, **d: mk(d).noise()[i],
                lambda mk=mk, i=i, ch=change, **d: mk(ch(d, own=("s",))).noise()[i],
                "noise %d depends on the galaxies and ellipticities of its own bin only" % i,
            )

    # a lensing kernel does not change with what other probes there are, nor spectra with other tracers
    PI = dict(cosmo_inputs(()), p=In(0.5, 2.0, (3,)), p_=In(0.5, 2.0), ell=In(2.0, 3000.0, (2,)))
    PAIRS = [(i, j) for i in range(3) for j in range(i, 3)]
    for o in range(3):
        keep = [q for q, (i, j) in enumerate(PAIRS) if o not in (i, j)]
        mk = lambda d: [any_probe([d["p"][0]], zmax=2.0), any_probe([d["p"][1], d["p"][2]], zmax=1.0)]
        ch = lambda d, o=o: dict(d, p=jnp.stack([d["p_"] if j == o else d["p"][j] for j in range(3)]))
        eq(
            "cl/%d" % o,
            PI,
            lambda mk=mk, keep=keep, **d: angular_cl(cosmology({}), d["ell"], mk(d), nonlinear_fn=pk_any)[jnp.asarray(keep)],
            lambda mk=mk, keep=keep, ch=ch, **d: angular_cl(cosmology({}), d["ell"], mk(ch(d)), nonlinear_fn=pk_any)[jnp.asarray(keep)],
            "the spectra of the other tracers do not depend on tracer %d" % o,
            atol=1e-30,
        )
        eq(
            "noise_cl/%d" % o,
            PI,
            lambda mk=mk, keep=keep, **d: noise_cl(d["ell"], mk(d))[jnp.asarray(keep)],
            lambda mk=mk, keep=keep, ch=ch, **d: noise_cl(d["ell"], mk(ch(d)))[jnp.asarray(keep)],
            "the noise spectra of the other tracers do not depend on tracer %d" % o,
        )
    # the spectra alone fix the covariance, not the probes' parameters
    CI = dict(p=In(0.5, 2.0, (2,)), p_=In(0.5, 2.0, (2,)), s=In(-2.0, 2.0, (3, 2)), n=In(0.0, 2.0, (3, 2)), l=In(2.0, 50.0), dl=In(1.0, 50.0))
    for sp in (True, False):
        f = lambda d, k, sp=sp: gaussian_cl_covariance(
            jnp.stack([d["l"], d["l"] + d["dl"]]), [any_probe([d[k][0], d[k][1]], zmax=2.0)], d["s"], d["n"], 0.3, sparse=sp
        )
        eq(
            "covariance/" + ("sparse" if sp else "dense"),
            CI,
            lambda f=f, **d: f(d, "p"),
            lambda f=f, **d: f(d, "p_"),
            "the covariance depends on the probes through the spectra only",
        )
    # one block of the covariance depends on the spectra of its four tracers only
    eq(
        "covariance/block",
        dict(CI, s_=In(-2.0, 2.0, (2, 2))),
        lambda **d: gaussian_cl_covariance(jnp.stack([d["l"], d["l"] + d["dl"]]), [any_probe([d["p"][0], d["p"][1]], zmax=2.0)], d["s"], d["n"], 0.3)[0, 0],
        lambda **d: gaussian_cl_covariance(
            jnp.stack([d["l"], d["l"] + d["dl"]]),
            [any_probe([d["p"][0], d["p"][1]], zmax=2.0)],
            jnp.concatenate([d["s"][:1], d["s_"]]),
            d["n"],
            0.3,
        )[0, 0],
        "the variance of the first auto spectrum depends on that spectrum only",
    )
    return obs
