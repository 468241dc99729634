"""C11 linear power spectrum"""
import jax_cosmo.power as pw
import jax_cosmo.transfer as tk

from .common import *
from .lemmas import ref_romb, romb_lemma

TF = prims.uf("transfer", lambda k, s, q: (1.0 + 0.1 * s) / (1.0 + 3.0 * q * k), 1e-6, 10.0)


def any_transfer(cosmo, k, q=1.0):
    return TF(k, cosmo.Omega_b, q)


def scaled(c):
    return lambda cosmo, k, **kw: c * any_transfer(cosmo, k, **kw)


def romb_nodes(n):
    """Weights of the entry (n, n) of the Romberg table on the 2^n + 1 points"""
    W = np.eye(2**n + 1)
    R = []
    for i in range(n + 1):
        step = 2 ** (n - i)
        w = np.zeros(2**n + 1)
        w[::step] = 1.0
        w[0] = w[-1] = 0.5
        row = [w / 2**i]
        for m in range(1, i + 1):
            row.append((4.0**m * row[m - 1] - R[-1][m - 1]) / (4.0**m - 1.0))
        R.append(row)
    return R[n][n]


def sigma2(R, n_s, T, lo, hi, depth=7):
    """int dlnk k^3 P(k) W(kR)^2 / 2 pi^2, Romberg over ln k in [lo, hi]"""
    w = romb_nodes(depth)
    l = lo + (hi - lo) * np.arange(2**depth + 1) / 2**depth
    k = np.exp(l)
    x = k * R
    W = 3.0 * (jnp.sin(x) - x * jnp.cos(x)) / x**3
    P = T(k) ** 2 * jnp.exp(n_s * l)
    return jnp.sum(w * k**3 * P * W**2) * (hi - lo) / (2.0 * np.pi**2)


def obligations(tier):
    obs = []
    ci = cosmo_inputs
    K = lambda *s: In(1e-4, 10.0, s)
    A = lambda *s: In(2e-3, 1.0, s, special=(1.0,))

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 0.0)
        kw.setdefault("rtol", 1e-6)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    PRIM = ("n_s", "sigma8", "Omega_b")

    # the formula, with the variance as the code computes it
    def lin(p, k, a, T, s2, gamma=None):
        return p["sigma8"] ** 2 * jnp.exp(p["n_s"] * jnp.log(k)) * T(k) ** 2 * growth(p, a, gamma) ** 2 / s2

    for ks, as_ in (((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((1,), (1,)), ((2, 1), (2,))):
        t = "k%s,a%s" % ("x".join(map(str, ks)), "x".join(map(str, as_)))
        eq(
            "formula/" + t,
            dict(ci(), k=K(*ks), a=A(*as_)),
            lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"], any_transfer),
            lambda **d: jnp.squeeze(
                lin(params(d), d["k"], d["a"] if jnp.ndim(d["a"]) else d["a"][None], lambda k: TF(k, d["Omega_b"], 1.0), pw.sigmasqr(cosmology(d), 8.0, any_transfer))
            ),
            "sigma8^2 k^n T^2 D^2 over the variance at 8 Mpc/h, for an arbitrary transfer function",
            eager=1,
        )
    eq(
        "gamma",
        dict(ci(gamma=True), k=K(2), a=A()),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"], any_transfer),
        lambda **d: lin(params(d), d["k"], d["a"], lambda k: TF(k, d["Omega_b"], 1.0), pw.sigmasqr(cosmology(d), 8.0, any_transfer), d["gamma"]),
        "with a growth index",
    )
    eq(
        "kwargs",
        dict(ci(PRIM), k=K(2), a=A(), q=In(0.5, 2.0)),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"], any_transfer, q=d["q"]),
        lambda **d: lin(params(d), d["k"], d["a"], lambda k: TF(k, d["Omega_b"], d["q"]), pw.sigmasqr(cosmology(d), 8.0, any_transfer, q=d["q"])),
        "options reach the transfer function in the spectrum and in its normalisation",
    )
    eq(
        "normalised",
        dict(ci(PRIM)),
        lambda **d: pw.sigmasqr(
            cosmology(d), 8.0, lambda c, k: jnp.sqrt(jnp.atleast_1d(pw.linear_matter_power(c, k, 1.0, any_transfer)) / k**c.n_s).reshape(jnp.shape(k))
        ),
        lambda **d: d["sigma8"] ** 2,
        "the variance at 8 Mpc/h of the spectrum itself is sigma8^2",
    )
    eq(
        "primordial",
        dict(ci(), k=K(2)),
        lambda **d: pw.primordial_matter_power(cosmology(d), d["k"]),
        lambda **d: jnp.exp(d["n_s"] * jnp.log(d["k"])),
        "the primordial spectrum is k^n_s",
    )
    eq(
        "amplitude",
        dict(ci(PRIM), s=In(0.3, 1.5), k=K(2), a=A()),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"], any_transfer) / pw.linear_matter_power(cosmology(dict(d, sigma8=d["s"])), d["k"], d["a"], any_transfer),
        lambda **d: jnp.full(2, 1.0) * (d["sigma8"] / d["s"]) ** 2,
        "proportional to sigma8^2",
    )
    eq(
        "transfer-scale",
        dict(ci(PRIM), c=In(0.2, 5.0), k=K(2), a=A()),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"], scaled(d["c"])),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"], any_transfer),
        "the normalisation of the transfer function does not matter",
    )
    eq(
        "growth",
        dict(ci(), k=K(2), a=A()),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"], any_transfer) / pw.linear_matter_power(cosmology(d), d["k"], 1.0, any_transfer),
        lambda **d: jnp.full(2, 1.0) * growth(params(d), d["a"]) ** 2,
        "grows with D^2 at all wave numbers",
    )
    eq(
        "today",
        dict(ci(PRIM), k=K(2)),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], transfer_fn=any_transfer),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], 1.0, any_transfer),
        "today by default",
    )
    eq(
        "default-transfer",
        dict(n_s=In(0.8, 1.1), sigma8=In(0.5, 1.2), k=K(2), a=A()),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"]),
        lambda **d: lin(params(d), d["k"], d["a"], lambda k: tk.Eisenstein_Hu(cosmology(d), k), pw.sigmasqr(cosmology(d), 8.0, tk.Eisenstein_Hu)),
        "Eisenstein and Hu by default",
    )
    eq(
        "eisenstein-hu/type",
        dict(n_s=In(0.8, 1.1), sigma8=In(0.5, 1.2), k=K(2), a=A()),
        lambda **d: pw.linear_matter_power(cosmology(d), d["k"], d["a"], type="eisenhu"),
        lambda **d: lin(params(d), d["k"], d["a"], lambda k: tk.Eisenstein_Hu(cosmology(d), k, type="eisenhu"), pw.sigmasqr(cosmology(d), 8.0, tk.Eisenstein_Hu, type="eisenhu")),
        "its type can be chosen",
    )
    eq(
        "linear",
        dict(ci(PRIM), k=K(2), a=A(2)),
        lambda **d: [pw.linear(cosmology(d), d["k"], d["a"], any_transfer), pw.nonlinear_matter_power(cosmology(d), d["k"], d["a"], any_transfer, pw.linear)],
        lambda **d: 2 * [pw.linear_matter_power(cosmology(d), d["k"], d["a"], any_transfer)],
        "the linear spectrum as non-linear function",
    )
    obs.append(
        Ob(
            "positive",
            dict(ci(PRIM), k=K(2), a=A()),
            lambda **d: [pw.linear_matter_power(cosmology(d), d["k"], d["a"], any_transfer) * pw.sigmasqr(cosmology(d), 8.0, any_transfer)],
            None,
            "never negative (times its normalisation)",
            kind="nonneg",
            atol=1e-12,
        )
    )
    # the variance itself
    for R in (8.0, None):
        for kw in ({}, dict(kmin=1e-3, kmax=50.0)):
            lo, hi = kw.get("kmin", 1e-4), kw.get("kmax", 1e3)
            I = dict(n_s=In(*BOX["n_s"], special=(1.0,)), Omega_b=In(*BOX["Omega_b"]))
            if R is None:
                I["R"] = In(1.0, 20.0)
            f = lambda s, kw=kw, lo=lo, hi=hi, R=R: lambda **d: sigma2(
                d.get("R", R), d["n_s"], lambda k: TF(k, d["Omega_b"], 1.0), s(lo), s(hi)
            )
            eq(
                "variance/%s/%g-%g" % (R or "R", lo, hi),
                I,
                lambda kw=kw, R=R, **d: pw.sigmasqr(cosmology(d), d.get("R", R), any_transfer, **kw),
                f(np.log),
                "sigma^2(R) over ln k between kmin and kmax, for an arbitrary transfer function",
                known="sigmasqr-log10",
                known_spec=f(np.log10),
            )
    return obs + [romb_lemma(3), romb_lemma(7)]
