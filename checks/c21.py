"""C21 automatic derivatives"""
import jax

import jax_cosmo.background as bk
import jax_cosmo.bias as jb
import jax_cosmo.power as pw
import jax_cosmo.probes as pr
import jax_cosmo.sparse as sparse
import jax_cosmo.transfer as tk
from jax_cosmo.angular_cl import angular_cl
from jax_cosmo.likelihood import gaussian_log_likelihood

from .bins import *
from .c10 import eh_spec
from .c11 import TF, any_transfer
from .c13 import kde
from .c17 import KER, PK, any_probe, limber, pk_any
from .lemmas import ref_interp

BG = ("Omega_c", "Omega_b", "Omega_k", "w0", "wa")


def forward(f, d, names):
    """{name: derivative} by forward mode, one parameter at a time"""
    return [jax.jvp(lambda x: f(dict(d, **{n: x})), (d[n],), (jnp.ones(jnp.shape(d[n])),))[1] for n in names]


def reverse(f, d, names):
    g = jax.grad(lambda q: jnp.sum(f(dict(d, **q))))({n: d[n] for n in names})
    return [g[n] for n in names]


def flat_distance(p, a):
    """The transverse distance, with the series in Omega_k when flat"""
    c = chi(p, a)
    ok = jnp.asarray(p["Omega_k"])
    zero = ok == 0
    x = jnp.sqrt(jnp.abs(jnp.where(zero, 1.0, ok)))
    u = jnp.where(zero, 0.0, x * c / RH)
    return jnp.where(
        zero,
        c + ok * c**3 / (6.0 * RH**2),
        jnp.where(ok > 0, RH / x * jnp.sinh(u), RH / x * jnp.sin(u)),
    )


def smail_powers(a, b, z0):
    def f(z):
        z = jnp.asarray(z)
        l = jnp.log(jnp.where(z > 0, z, 1.0))
        return jnp.where(z > 0, jnp.exp(a * l) * jnp.exp(-jnp.exp(b * l) / jnp.exp(b * jnp.log(z0))), 0.0)

    return f


def growth_gamma(p, a, gamma):
    """As the exponential of a sum, divided by that today"""
    la = np.log(grid(1e-3, 128))
    f = lambda l: Om_a(p, jnp.exp(l)) ** gamma
    h = np.diff(la)
    d = h / 6.0 * (f(la[:-1]) + 4.0 * f(la[:-1] + h / 2.0) + f(la[1:]))
    g = jnp.exp(jnp.concatenate([jnp.zeros(1), jnp.cumsum(d)]))
    return jnp.clip(lin_interp(a, np.exp(la), g / g[-1]), 0.0, 1.0)


def rate_normalised(p, a):
    """As (D' / D0) a / (D / D0)"""
    at, D, V = growth_raw(p)
    return lin_interp(a, at, V / D[-1] * at / (D / D[-1]))


def obligations(tier):
    obs = []
    ci = cosmo_inputs
    big = tier != "quick"
    A = lambda *s: In(2e-3, 0.999, s)
    K = lambda *s: In(1e-3, 10.0, s)

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-7)
        kw.setdefault("rtol", 1e-6)
        kw.setdefault("eager", 2)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def both(name, inputs, f, g, names, claim, rev=True, fwd=True, fix=None, **kw):
        """f, g: functions of the dictionary of inputs; fix: inputs at one value"""
        fix = fix or {}
        full = lambda d: dict({k: jnp.asarray(v) for k, v in fix.items()}, **d)
        I = {k: v for k, v in inputs.items() if k not in fix}
        fwd and eq(
            name + "/forward",
            I,
            lambda **d: forward(f, full(d), names),
            lambda **d: forward(g, full(d), names),
            claim + ": forward mode, with respect to " + ", ".join(names),
            **kw,
        )
        if rev:
            eq(
                name + "/reverse",
                I,
                lambda **d: reverse(f, full(d), names),
                lambda **d: reverse(g, full(d), names),
                claim + ": reverse mode, with respect to " + ", ".join(names),
                **kw,
            )

    LCDM = dict(Omega_k=0.0, w0=-1.0, wa=0.0)
    # ---------------------------------------------------------------- background, derivatives written by hand
    def hand(d):
        p = params(d)
        a = d["a"]
        F = fde(p, a)
        la = jnp.log(a)
        dFw, dFwa = -3.0 * la * F, (-3.0 * la - 3.0 * (1.0 - a)) * F
        e = {
            "Omega_c": a**-3 - F,
            "Omega_b": a**-3 - F,
            "Omega_k": a**-2 - F,
            "w0": ode_(p) * dFw,
            "wa": ode_(p) * dFwa,
            "a": -3.0 * om(p) * a**-4 - 2.0 * p["Omega_k"] * a**-3 + ode_(p) * F * (-3.0 * (1.0 + p["w0"] + p["wa"]) / a + 3.0 * p["wa"]),
        }
        return p, a, F, e

    V = BG + ("a",)

    def by_hand(name, f, g):
        eq(
            "hand/" + name,
            dict(ci(), a=A()),
            lambda **d: forward(lambda q: f(cosmology(q), q["a"]), d, V),
            lambda **d: g(*hand(d)),
            "derivatives of %s against their closed forms" % name,
        )
        eq(
            "hand/%s/lcdm" % name,
            dict(ci(("Omega_c", "Omega_b")), a=A()),
            lambda **d: forward(lambda q: f(cosmology(q), q["a"]), dict(d, **{k: jnp.asarray(v) for k, v in LCDM.items()}), V),
            lambda **d: g(*hand(dict(d, **LCDM))),
            "derivatives of %s against their closed forms at Omega_k = 0, w0 = -1, wa = 0" % name,
        )

    by_hand("Esqr", bk.Esqr, lambda p, a, F, e: [e[v] for v in V])
    by_hand("H", bk.H, lambda p, a, F, e: [50.0 * e[v] / jnp.sqrt(E2(p, a)) for v in V])
    by_hand(
        "Omega_m_a",
        bk.Omega_m_a,
        lambda p, a, F, e: [
            ((1.0 if v in ("Omega_c", "Omega_b") else 0.0) - (3.0 * om(p) / a if v == "a" else 0.0)) / a**3 / E2(p, a)
            - om(p) / a**3 * e[v] / E2(p, a) ** 2
            for v in V
        ],
    )
    by_hand(
        "dchioverda",
        bk.dchioverda,
        lambda p, a, F, e: [-0.5 * RH / a**2 * e[v] / E2(p, a) ** 1.5 - (2.0 * RH / a**3 / jnp.sqrt(E2(p, a)) if v == "a" else 0.0) for v in V],
    )
    sf = dict(w=(bk.w, w_a), f_de=(bk.f_de, None), Omega_de_a=(bk.Omega_de_a, Ode_a), H=(bk.H, H))
    for nm, (f, g) in sf.items():
        if g is None:
            continue
        both(
            nm,
            dict(ci(), a=A(2)),
            lambda q, f=f: f(cosmology(q), q["a"]),
            lambda q, g=g: g(params(q), q["a"]),
            ("w0", "wa", "a") if nm == "w" else V,
            nm,
        )

    # ---------------------------------------------------------------- distances
    dist = dict(
        chi=(bk.radial_comoving_distance, chi),
        transverse=(bk.transverse_comoving_distance, flat_distance),
        angular=(bk.angular_diameter_distance, lambda p, a: a * flat_distance(p, a)),
    )
    for nm, (f, g) in dist.items():
        F = lambda q, f=f: f(cosmology(q), q["a"])
        G = lambda q, g=g: jnp.atleast_1d(g(params(q), q["a"]))
        if nm == "angular" and not big:
            both(nm, dict(ci(("Omega_c", "Omega_k", "w0")), a=A()), F, G, ("Omega_k", "a"), nm, rev=False)
        else:
            both(nm, dict(ci(), a=A()), F, G, V, nm)
            both(nm + "/lcdm", dict(ci(("Omega_c", "Omega_b")), a=A()), F, G, V, nm + " in flat LCDM", fix=LCDM, atol=1e-5)
    for sgn, r in (("open", (1e-4, 0.2)), ("closed", (-0.2, -1e-4))):
        big and both(
            "transverse/" + sgn,
            dict(ci(box=dict(Omega_k=r)), a=A()),
            lambda q: bk.transverse_comoving_distance(cosmology(q), q["a"]),
            lambda q: jnp.atleast_1d(flat_distance(params(q), q["a"])),
            V,
            "transverse distance, %s" % sgn,
            rev=big,
        )
    both(
        "a_of_chi",
        dict(ci(("Omega_c", "w0")), x=In(1.0, 6000.0)),
        lambda q: bk.a_of_chi(cosmology(q), q["x"]),
        lambda q: a_of_chi(params(q), q["x"]),
        ("Omega_c", "w0", "x"),
        "a_of_chi",
    )
    # forward and reverse mode agree on the real code; short tables, so that the sums can be reordered
    short = lambda q: bk.radial_comoving_distance(cosmology(q), q["a"], log10_amin=-1, steps=6)
    for x in (0.2, 0.5, 0.97):
        eq(
            "modes/chi/%g" % x,
            ci(),
            lambda x=x, **d: reverse(short, dict(d, a=jnp.asarray(x)), V),
            lambda x=x, **d: [jnp.reshape(y, ()) for y in forward(short, dict(d, a=jnp.asarray(x)), V)],
            "forward and reverse mode agree",
        )
    for nm, f in (("Esqr", bk.Esqr), ("Omega_m_a", bk.Omega_m_a), ("Omega_de_a", bk.Omega_de_a), ("dchioverda", bk.dchioverda), ("w", bk.w)):
        eq(
            "modes/" + nm,
            dict(ci(), a=A()),
            lambda f=f, **d: reverse(lambda q: f(cosmology(q), q["a"]), d, V),
            lambda f=f, **d: forward(lambda q: f(cosmology(q), q["a"]), d, V),
            "forward and reverse mode agree",
        )
    for nm, f in (("Esqr", bk.Esqr), ("chi", bk.radial_comoving_distance), ("transverse", bk.transverse_comoving_distance)):
        s = lambda c, a, f=f: jnp.sum(f(c, a))
        for t, g in (
            ("inside", lambda c, a, s=s: jax.jit(jax.grad(s, argnums=1))(c, a)),
            ("outside", lambda c, a, s=s: jax.grad(jax.jit(s), argnums=1)(c, a)),
        ):
            eq(
                "jit/%s/%s" % (nm, t),
                dict(ci(), a=A()),
                lambda g=g, **d: g(cosmology(d), d["a"]),
                lambda s=s, **d: jax.grad(s, argnums=1)(cosmology(d), d["a"]),
                "the derivative %s of jit is that without" % t,
            )
        eq(
            "jit/%s/parameters" % nm,
            dict(ci(), a=A()),
            lambda s=s, **d: jax.jit(jax.grad(s))(cosmology(d), d["a"]),
            lambda s=s, **d: jax.grad(s)(cosmology(d), d["a"]),
            "gradients with respect to the cosmology are the same under jit",
        )

    # ---------------------------------------------------------------- growth
    for nm, f, g in (("growth", bk.growth_factor, growth), ("rate", bk.growth_rate, growth_rate)):
        both(
            nm + "/ode",
            dict(ci(("Omega_c", "w0", "wa", "Omega_k")), a=A()),
            lambda q, f=f: f(cosmology(q), q["a"]),
            lambda q, g=growth if nm == "growth" else rate_normalised: jnp.atleast_1d(g(params(q), q["a"])),
            ("Omega_c", "w0") if not big else ("Omega_c", "w0", "wa", "Omega_k", "a"),
            nm,
            rev=big,
            budget=110,
        )
        both(
            nm + "/gamma",
            dict(ci(gamma=True), a=A()),
            lambda q, f=f: jnp.ravel(f(cosmology(q), q["a"])),
            lambda q, g=growth_gamma if nm == "growth" else growth_rate: jnp.ravel(g(params(q), q["a"], q["gamma"])),
            BG + ("gamma", "a"),
            nm,
            rev=True,
        )

    # ---------------------------------------------------------------- spectra
    for ty, osc in (("eisenhu", False), ("eisenhu_osc", True)):
        F = lambda q, ty=ty: tk.Eisenstein_Hu(cosmology(q), q["k"], type=ty)
        G = lambda q, osc=osc: eh_spec(params(q), q["k"], osc)
        I = dict(ci(("Omega_c", "Omega_b", "h")), k=K())
        both("transfer/%s/k" % ty, I, F, G, ("k",), "transfer function", atol=1e-9, rev=not osc or big)
        if not osc:
            for v in ("Omega_c", "Omega_b", "h"):
                both("transfer/%s/%s" % (ty, v), I, F, G, (v,), "transfer function", atol=1e-9, fwd=v != "Omega_b")
        else:
            for n, fix in (("fid", dict(Omega_c=0.25, Omega_b=0.05, h=0.7)), ("low", dict(Omega_c=0.12, Omega_b=0.02, h=0.5)), ("high", dict(Omega_c=0.5, Omega_b=0.09, h=0.95))):
                both("transfer/%s/%s" % (ty, n), I, F, G, ("Omega_c", "Omega_b", "h"), "transfer function at Omega_c = %g, Omega_b = %g, h = %g" % tuple(fix.values()), fix=fix, atol=1e-9, rev=big)
    both(
        "primordial",
        dict(ci(("n_s",)), k=K()),
        lambda q: pw.primordial_matter_power(cosmology(q), q["k"]),
        lambda q: jnp.exp(q["n_s"] * jnp.log(q["k"])),
        ("n_s", "k"),
        "primordial spectrum",
    )

    def lin(q):
        p = params(q)
        c = cosmology(q)
        s2 = pw.sigmasqr(c, 8.0, any_transfer)
        return p["sigma8"] ** 2 / s2 * jnp.exp(p["n_s"] * jnp.log(q["k"])) * TF(q["k"], p["Omega_b"], 1.0) ** 2 * growth(p, q["a"])[0] ** 2

    both(
        "linear",
        dict(ci(("n_s", "sigma8", "Omega_b", "Omega_c")), k=K(), a=A()),
        lambda q: pw.linear_matter_power(cosmology(q), q["k"], q["a"], any_transfer),
        lin,
        ("sigma8", "n_s", "a"),
        "linear spectrum",
        rev=False,
        rtol=1e-5,
    )

    # ---------------------------------------------------------------- redshift distributions and biases
    S = dict(al=In(0.5, 4.0), be=In(0.5, 3.0), z0=In(0.1, 2.0), z=In(0.05, 2.5))
    both(
        "smail_nz",
        S,
        lambda q: jnp.ravel(rds.smail_nz(q["al"], q["be"], q["z0"], zmax=3.0)(q["z"])),
        lambda q: jnp.ravel(normalised(smail_powers(q["al"], q["be"], q["z0"]), 3.0)(q["z"])),
        ("al", "be", "z0", "z"),
        "smail_nz",
        atol=1e-6,
    )
    CI = dict(cat=In(0.2, 1.5, (2,)), w=In(0.1, 2.0, (2,)), z=In(0.05, 2.5))
    both(
        "kde_nz",
        CI,
        lambda q: jnp.ravel(rds.kde_nz(q["cat"], q["w"], bw=0.2, zmax=3.0)(q["z"])),
        lambda q: jnp.ravel(normalised(kde(q, 0.2), 3.0)(q["z"])),
        ("cat", "w", "z"),
        "kde_nz",
        atol=1e-6,
    )
    both(
        "systematic_shift",
        dict(p=In(0.5, 2.0), s=In(-0.04, 0.2), z=In(0.3, 2.5)),
        lambda q: jnp.ravel(rds.systematic_shift(any_nz(q["p"], zmax=3.0), q["s"], zmax=3.0)(q["z"])),
        lambda q: jnp.ravel(normalised(lambda z: PZ(jnp.clip(z - q["s"], 0.0), q["p"]), 3.0)(q["z"])),
        ("p", "z"),
        "systematic_shift",
        atol=1e-6,
    )
    both(
        "bias/des",
        dict(b=In(0.1, 5.0), e=In(-3.0, 3.0), z0=In(0.1, 1.0), z=In(0.01, 2.5)),
        lambda q: jb.des_y1_ia_bias(q["b"], q["e"], q["z0"])(cosmology({}), q["z"]),
        lambda q: q["b"] * jnp.exp(q["e"] * (jnp.log(1.0 + q["z"]) - jnp.log(1.0 + q["z0"]))),
        ("b", "e", "z0", "z"),
        "des_y1_ia_bias",
    )
    big and both(
        "bias/growth",
        dict(ci(("Omega_c", "w0")), b=In(0.1, 5.0), z=In(0.01, 2.5)),
        lambda q: jnp.ravel(jb.inverse_growth_linear_bias(q["b"])(cosmology(q), q["z"])),
        lambda q: jnp.ravel(q["b"] / growth(params(q), 1.0 / (1.0 + q["z"]))),
        ("Omega_c", "b", "z"),
        "inverse_growth_linear_bias",
        rev=big,
    )

    # ---------------------------------------------------------------- kernels and spectra
    KI = dict(ci(("Omega_c", "w0")), p=In(0.5, 2.0), q=In(0.5, 2.0), m=In(-0.1, 0.1), z=In(0.05, 1.8), ell=In(2.0, 3000.0))
    both(
        "kernel/lensing",
        KI,
        lambda q: jnp.ravel(pr.WeakLensing([any_nz(q["p"], zmax=2.0)], multiplicative_bias=q["m"]).kernel(cosmology(q), q["z"], q["ell"])),
        lambda q: jnp.ravel(lensing_kernel(params(q), [ext(q["p"], zmax=2.0)], q["z"], q["ell"], m=[q["m"]])),
        ("Omega_c", "w0", "p", "m", "ell") if big else ("Omega_c", "p", "m"),
        "lensing kernel",
        rev=big,
        rtol=1e-5,
    )
    both(
        "kernel/density",
        KI,
        lambda q: jnp.ravel(pr.NumberCounts([any_nz(q["p"], zmax=2.0)], any_bias(q["q"])).kernel(cosmology(q), q["z"], q["ell"])),
        lambda q: jnp.ravel(density_rows(params(q), [ext(q["p"], zmax=2.0)], [ubias(q["q"], FID["sigma8"])], q["z"])),
        ("Omega_c", "w0", "p", "q", "z"),
        "density kernel",
    )
    both(
        "noise",
        dict(g=In(0.1, 50.0), s=In(0.05, 1.0)),
        lambda q: jnp.ravel(pr.WeakLensing([any_nz(1.0, zmax=2.0, gals_per_arcmin2=q["g"])], sigma_e=q["s"]).noise()),
        lambda q: jnp.ravel(q["s"] ** 2 / (q["g"] * ARC)),
        ("g", "s"),
        "lensing noise",
        atol=0.0,
    )
    both(
        "angular_cl",
        dict(p=In(0.5, 2.0, (2,)), ell=In(2.0, 3000.0, (1,))),
        lambda q: angular_cl(cosmology({}), q["ell"], [any_probe([q["p"][0], q["p"][1]], zmax=2.0)], nonlinear_fn=pk_any),
        lambda q: limber(params({}), lambda z, l: jnp.stack([KER(z, l, q["p"][i]) for i in range(2)]), 2.0, q["ell"], PK),
        ("p", "ell") if big else ("p",),
        "angular spectra",
        atol=1e-20,
        rtol=1e-5,
    )
    both(
        "angular_cl/cosmology",
        dict(ci(("Omega_c", "w0", "Omega_k")), p=In(0.5, 2.0), ell=In(2.0, 3000.0, (1,))),
        lambda q: angular_cl(cosmology(q), q["ell"], [any_probe([q["p"]], zmax=2.0)], nonlinear_fn=pk_any),
        lambda q: limber(params(q), lambda z, l: jnp.stack([KER(z, l, q["p"])]), 2.0, q["ell"], PK),
        ("Omega_c", "w0", "p") if big else ("Omega_c", "Omega_k"),
        "angular spectra",
        atol=1e-20,
        rtol=1e-5,
        rev=False,
        budget=110,
    )

    # ---------------------------------------------------------------- likelihood
    def mats(q):
        return jnp.stack([jnp.stack([q["v"][0], q["c"]]), jnp.stack([q["c"], q["v"][1]])])

    LI = dict(y=In(-2.0, 2.0, (2,)), mu=In(-2.0, 2.0, (2,)), v=In(0.6, 2.0, (2,)), c=In(-0.4, 0.4))

    def like(q, det):
        D = q["v"][0] * q["v"][1] - q["c"] ** 2
        r = q["y"] - q["mu"]
        x2 = (q["v"][1] * r[0] ** 2 - 2.0 * q["c"] * r[0] * r[1] + q["v"][0] * r[1] ** 2) / D
        return -0.5 * x2 - (0.5 * jnp.log(D) if det else 0.0)

    for det in (True, False):
        for how in ("inverse", "cholesky"):
            both(
                "likelihood/%s%s" % (how, "+det" if det else ""),
                LI,
                lambda q, det=det, how=how: gaussian_log_likelihood(q["y"], q["mu"], mats(q), include_logdet=det, inverse_method=how),
                lambda q, det=det: like(q, det),
                ("y", "mu", "v", "c"),
                "Gaussian likelihood (%s)" % how,
            )
        both(
            "likelihood/sparse%s" % ("+det" if det else ""),
            LI,
            lambda q, det=det: gaussian_log_likelihood(
                q["y"], q["mu"], mats(q)[:, :, None], include_logdet=det
            ),
            lambda q, det=det: like(q, det),
            ("y", "mu", "v", "c"),
            "Gaussian likelihood, sparse covariance",
        )

    # ---------------------------------------------------------------- interpolation, on which the tables rest
    for sgn in (1, -1):
        g = lambda d, sgn=sgn: sgn * (d["x0"] + jnp.concatenate([jnp.zeros(1), jnp.cumsum(d["gaps"])]))
        from jax_cosmo.scipy.interpolate import interp

        I = dict(x=In(0.05, 0.95), x0=In(-1.0, 1.0), gaps=In(0.1, 2.0, (3,)), f=In(-5.0, 5.0, (4,)))
        for cell in (0, 1, 2):
            at_ = lambda d, cell=cell, g=g: jnp.atleast_1d((1.0 - d["x"]) * g(d)[cell] + d["x"] * g(d)[cell + 1])
            # query, grid and ordinates move with the inputs
            for t, mode in (("forward", forward), ("reverse", reverse)):
                eq(
                    "interp/%d%s/%s" % (cell, "+" if sgn > 0 else "-", t),
                    I,
                    lambda mode=mode, at_=at_, g=g, **d: mode(lambda q: interp(jax.lax.stop_gradient(at_(d)) + q["e"], g(dict(d, gaps=q["gaps"])), q["f"]), dict(d, e=jnp.zeros(())), ("gaps", "f", "e")),
                    lambda mode=mode, at_=at_, g=g, cell=cell, **d: mode(
                        lambda q: (
                            lambda X: q["f"][cell] + (q["f"][cell + 1] - q["f"][cell]) / (X[cell + 1] - X[cell]) * (jax.lax.stop_gradient(at_(d)) + q["e"] - X[cell])
                        )(g(dict(d, gaps=q["gaps"]))),
                        dict(d, e=jnp.zeros(())),
                        ("gaps", "f", "e"),
                    ),
                    "derivatives of the interpolation with respect to the query, the grid and the ordinates, inside of interval %d" % cell,
                    stubs=(),
                )
    return obs
