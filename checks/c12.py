"""C12 halofit"""
import jax_cosmo.power as pw

from .c11 import TF, any_transfer
from .common import *
from .lemmas import interp_lemmas, simps_lemma

LK = np.asarray(jnp.linspace(np.log(1e-4), np.log(1e4), 257))
SW = np.ones(257)
SW[1:-1:2] = 4.0
SW[2:-1:2] = 2.0
SW = SW * (np.log(1e4) - np.log(1e-4)) / 256 / 3.0
LR = np.asarray(jnp.linspace(np.log(1e-4), np.log(1e1), 256))
EK, ER = np.asarray(jnp.exp(LK)), np.asarray(jnp.exp(LR))


def parameters(d2, D):
    """Non-linear scale, effective index and curvature; d2: dimensionless linear spectrum today at exp(LK), D: growth"""
    k = EK
    F = np.exp(-(np.outer(k, ER) ** 2))
    out = []
    for i in range(D.shape[0]):
        v = jnp.sum((SW * d2 * D[i] ** 2)[:, None] * F, axis=0)
        # the scale where the variance is one, linear in log R on the table
        R = jnp.maximum(jnp.exp(lin_interp(jnp.ones(1), v, LR))[0], 1e-6)
        y2 = (k * R) ** 2
        g = SW * d2 * D[i] ** 2 * jnp.exp(-y2)
        n = jnp.sum(2.0 * g * y2) - 3.0
        C = jnp.sum(2.0 * g * y2) ** 2 + jnp.sum(4.0 * g * (y2 - y2**2))
        out.append((1.0 / R, n, C))
    return [jnp.stack(x) for x in zip(*out)]


def halofit_spec(p, k, a, lin, d2, presc, gamma=None):
    """lin(k, a): linear spectrum"""
    a1 = jnp.atleast_1d(a)
    D = growth(p, a1, gamma)
    ks, n, C = [x if jnp.ndim(a) else x[0] for x in parameters(d2, D)]
    Om, Ode, w = Om_a(p, a), Ode_a(p, a), w_a(p, a)
    if presc == "smith2003":
        an = 10 ** (1.4861 + 1.8369 * n + 1.6762 * n**2 + 0.7940 * n**3 + 0.1670 * n**4 - 0.6206 * C)
        bn = 10 ** (0.9463 + 0.9466 * n + 0.3084 * n**2 - 0.9400 * C)
        cn = 10 ** (-0.2807 + 0.6669 * n + 0.3214 * n**2 - 0.0793 * C)
        ga = 0.8649 + 0.2989 * n + 0.1631 * C
        al = 1.3884 + 0.3700 * n - 0.1452 * n**2
        be = 0.8291 + 0.9854 * n + 0.3401 * n**2
        mu = 10 ** (-3.5442 + 0.1908 * n)
        nu = 10 ** (0.9585 + 1.2857 * n)
        fr = Ode / (1.0 - Om)
        f1, f2, f3 = [fr * Om**b + (1 - fr) * Om**c for b, c in ((-0.0307, -0.0732), (-0.0585, -0.1423), (0.0743, 0.0725))]
    else:
        q = Ode * (1.0 + w)
        an = 10 ** (1.5222 + 2.8553 * n + 2.3706 * n**2 + 0.9903 * n**3 + 0.2250 * n**4 - 0.6038 * C + 0.1749 * q)
        bn = 10 ** (-0.5642 + 0.5864 * n + 0.5716 * n**2 - 1.5474 * C + 0.2279 * q)
        cn = 10 ** (0.3698 + 2.0404 * n + 0.8161 * n**2 + 0.5869 * C)
        ga = 0.1971 - 0.0843 * n + 0.8460 * C
        al = jnp.abs(6.0835 + 1.3373 * n - 0.1959 * n**2 - 5.5274 * C)
        be = 2.0379 - 0.7354 * n + 0.3157 * n**2 + 1.2490 * n**3 + 0.3980 * n**4 - 0.1682 * C
        mu = 0.0
        nu = 10 ** (5.2105 + 3.6902 * n)
        f1, f2, f3 = Om**-0.0307, Om**-0.0585, Om**0.0743
    DL = k**3 * lin / (2.0 * np.pi**2)
    y = k / ks
    DQ = DL * (1.0 + DL) ** be / (1.0 + al * DL) * jnp.exp(-(y / 4.0 + y**2 / 8.0))
    DH = an * y ** (3.0 * f1) / (1.0 + bn * y**f2 + (cn * f3 * y) ** (3.0 - ga)) / (1.0 + mu / y + nu / y**2)
    return 2.0 * np.pi**2 / k**3 * (DQ + DH)


def obligations(tier):
    obs = []
    ci = cosmo_inputs
    K = lambda *s: In(1e-3, 10.0, s)
    A = lambda *s: In(0.05, 1.0, s, special=(1.0,))
    big = tier != "quick"

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 0.0)
        kw.setdefault("rtol", 1e-5)
        kw.setdefault("eager", 1)
        kw.setdefault("points", 4)
        kw.setdefault("budget", 110)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def spec(d, presc, **fix):
        p = params(d, **fix)
        c = cosmology(d, **fix)
        s2 = pw.sigmasqr(c, 8.0, any_transfer)
        T = lambda k: TF(k, p["Omega_b"], 1.0)
        P0 = lambda k: p["sigma8"] ** 2 / s2 * jnp.exp(p["n_s"] * jnp.log(k)) * T(k) ** 2
        d2 = np.exp(3.0 * LK) / (2.0 * np.pi**2) * P0(jnp.asarray(np.exp(LK)))
        lin = P0(d["k"]) * growth(p, d["a"], d.get("gamma")) ** 2
        r = halofit_spec(p, d["k"], d["a"], lin, d2, presc, d.get("gamma"))
        return jnp.squeeze(r)

    PRIM = ("n_s", "sigma8", "Omega_b")
    FLAT = ("Omega_c", "n_s", "sigma8", "w0", "wa")
    for presc in ("takahashi2012", "smith2003"):
        P = presc[:3]
        for nm, free, fix in (
            ("primordial", PRIM, {}),
            ("flat", FLAT, dict(Omega_k=0.0)),
            ("open", PRIM, dict(Omega_k=0.1, w0=-0.8, wa=0.2)),
            ("closed", PRIM, dict(Omega_k=-0.08, w0=-1.2, wa=-0.3)),
        ):
            if not big and (P, nm) in (("tak", "closed"), ("smi", "open"), ("smi", "flat"), ("tak", "primordial")):
                continue
            eq(
                "%s/%s" % (P, nm),
                dict(ci(free), k=K(), a=A()),
                lambda presc=presc, fix=fix, **d: pw.halofit(cosmology(d, **fix), d["k"], d["a"], any_transfer, presc),
                lambda presc=presc, fix=fix, **d: spec(d, presc, **fix),
                "halofit of %s, arbitrary transfer function" % presc,
            )
        for ks, as_ in (((2,), ()), ((), (2,)), ((2,), (2,)), ((1,), (1,))):
            t = "k%s,a%s" % ("x".join(map(str, ks)), "x".join(map(str, as_)))
            if not big and (P == "tak") == ((1,) in (ks, as_)) and ks != as_:
                continue
            if not big and P == "smi" and ks == as_ == (2,):
                continue
            eq(
                "%s/shape/%s" % (P, t),
                dict(n_s=In(0.9, 1.0), sigma8=In(0.6, 1.0), k=K(*ks), a=A(*as_)),
                lambda presc=presc, **d: pw.halofit(cosmology(d, w0=-0.9), d["k"], d["a"], any_transfer, prescription=presc),
                lambda presc=presc, **d: jnp.squeeze(spec(d, presc, w0=-0.9)),
                "wave numbers and scale factors are broadcast against each other",
            )
        if not big and P == "smi":
            continue
        eq(
            P + "/gamma",
            dict(ci(PRIM), gamma=In(0.4, 0.7), k=K(), a=A()),
            lambda presc=presc, **d: pw.halofit(cosmology(d), d["k"], d["a"], any_transfer, presc),
            lambda presc=presc, **d: spec(d, presc),
            "with a growth index",
        )
    for nm, f, fix in (
        ("halofit", lambda c, d: pw.halofit(c, d["k"], d["a"], any_transfer), {}),
        ("nonlinear", lambda c, d: pw.nonlinear_matter_power(c, d["k"], d["a"], any_transfer), {}),
        ("today", lambda c, d: pw.nonlinear_matter_power(c, d["k"], transfer_fn=any_transfer), dict(a=1.0)),
    ):
        eq(
            "default/" + nm,
            dict(ci(PRIM), k=K(), **({} if fix else dict(a=A()))),
            lambda f=f, **d: f(cosmology(d), d),
            lambda fix=fix, **d: spec(dict(d, **fix), "takahashi2012"),
            "Takahashi is the default, today is the default scale factor",
        )
    eq(
        "custom",
        dict(ci(PRIM), k=K(2), a=A(2)),
        lambda **d: pw.nonlinear_matter_power(cosmology(d), d["k"], d["a"], any_transfer, lambda c, k, a, transfer_fn: [c.sigma8, k, a, transfer_fn(c, 2 * k)]),
        lambda **d: [d["sigma8"], d["k"], d["a"], TF(2 * d["k"], d["Omega_b"], 1.0)],
        "a custom non-linear function receives cosmology, wave numbers, scale factors and transfer function",
    )
    for n in ("smith", "takahashi", "", "Smith2003", None):
        obs.append(
            Ob(
                "error/%s" % n,
                dict(k=K(), a=A()),
                lambda n=n, **d: pw.halofit(cosmology(d), d["k"], d["a"], any_transfer, prescription=n),
                None,
                "unknown prescriptions are rejected",
                kind="raises",
                exc=NotImplementedError,
            )
        )
    return obs + interp_lemmas() + [simps_lemma(6), simps_lemma(256)]
