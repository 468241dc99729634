"""C10 Eisenstein & Hu transfer functions"""
from jax_cosmo.transfer import Eisenstein_Hu

from .common import *


def eh_spec(p, k, osc=True):
    """astro-ph/9709112; k in h/Mpc"""
    th2 = 2.726 / 2.7
    h = p["h"]
    Om = p["Omega_c"] + p["Omega_b"]
    om0, omb = Om * h**2, p["Omega_b"] * h**2
    fb, fc = p["Omega_b"] / Om, p["Omega_c"] / Om
    zeq = 2.5e4 * om0 * th2**-4  # (2)
    keq = 7.46e-2 * om0 * th2**-2  # (3), 1/Mpc
    b1 = 0.313 * om0**-0.419 * (1 + 0.607 * om0**0.674)
    b2 = 0.238 * om0**0.223
    zd = 1291 * om0**0.251 / (1 + 0.659 * om0**0.828) * (1 + b1 * omb**b2)  # (4)
    R = lambda z: 31.5 * omb * th2**-4 * (1000.0 / z)  # (5)
    Rd, Req = R(zd), R(zeq)
    s = 2.0 / (3.0 * keq) * jnp.sqrt(6.0 / Req) * jnp.log((jnp.sqrt(1 + Rd) + jnp.sqrt(Rd + Req)) / (1 + jnp.sqrt(Req)))  # (6), Mpc
    ksilk = 1.6 * omb**0.52 * om0**0.73 * (1 + (10.4 * om0) ** -0.95)  # (7)
    kp = k * h  # 1/Mpc
    if not osc:
        ag = 1 - 0.328 * jnp.log(431 * om0) * fb + 0.38 * jnp.log(22.3 * om0) * fb**2  # (31)
        geff = Om * h * (ag + (1 - ag) / (1 + (0.43 * kp * s) ** 4))  # (30)
        q = k * th2**2 / geff  # (28)
        L0 = jnp.log(2 * np.e + 1.8 * q)
        C0 = 14.2 + 731 / (1 + 62.5 * q)
        return L0 / (L0 + C0 * q**2)  # (29)
    q = kp / (13.41 * keq)  # (10)
    a1 = (46.9 * om0) ** 0.670 * (1 + (32.1 * om0) ** -0.532)
    a2 = (12.0 * om0) ** 0.424 * (1 + (45.0 * om0) ** -0.582)
    ac = a1**-fb * a2 ** -(fb**3)  # (11)
    bb1 = 0.944 / (1 + (458 * om0) ** -0.708)
    bb2 = (0.395 * om0) ** -0.0266
    bc = 1 / (1 + bb1 * (fc**bb2 - 1))  # (12)

    def T0(al, be):
        C = 14.2 / al + 386 / (1 + 69.9 * q**1.08)  # (20)
        L = jnp.log(np.e + 1.8 * be * q)
        return L / (L + C * q**2)  # (19)

    ks = kp * s
    f = 1 / (1 + (ks / 5.4) ** 4)  # (18)
    Tc = f * T0(1.0, bc) + (1 - f) * T0(ac, bc)  # (17)
    y = (1 + zeq) / (1 + zd)
    G = y * (-6 * jnp.sqrt(1 + y) + (2 + 3 * y) * jnp.log((jnp.sqrt(1 + y) + 1) / (jnp.sqrt(1 + y) - 1)))  # (15)
    ab = 2.07 * keq * s * (1 + Rd) ** -0.75 * G  # (14)
    bnode = 8.41 * om0**0.435  # (23)
    st = s / (1 + (bnode / ks) ** 3) ** (1.0 / 3.0)  # (22)
    bb = 0.5 + fb + (3 - 2 * fb) * jnp.sqrt((17.2 * om0) ** 2 + 1)  # (24)
    x = kp * st
    Tb = (T0(1.0, 1.0) / (1 + (ks / 5.2) ** 2) + ab / (1 + (bb / ks) ** 3) * jnp.exp(-((kp / ksilk) ** 1.4))) * jnp.sin(x) / x  # (21)
    return fb * Tb + fc * Tc  # (16)


def obligations(tier):
    obs = []
    P = ["Omega_c", "Omega_b", "h"]
    K = lambda *s: In(1e-4, 100.0, s, special=(0.01, 1.0))
    for t, osc in (("eisenhu_osc", True), ("eisenhu", False)):
        for s in ((), (1,), (3,)):
            obs.append(
                Ob(
                    "%s/k%s" % (t, "x".join(map(str, s))),
                    dict(cosmo_inputs(), k=K(*s)),
                    lambda t=t, **d: Eisenstein_Hu(cosmology(d), d["k"], type=t),
                    lambda osc=osc, **d: eh_spec(params(d), d["k"], osc),
                    "T(k) follows the equations of Eisenstein & Hu (1998), %s wiggles" % ("with" if osc else "without"),
                    atol=1e-10,
                    rtol=1e-6,
                )
            )
        for lo, hi, n in ((1e-4, 1e-2, "large"), (1e-2, 1.0, "acoustic"), (1.0, 100.0, "small")):
            obs.append(
                Ob(
                    "%s/%s-scales" % (t, n),
                    dict(cosmo_inputs(P), k=In(lo, hi)),
                    lambda t=t, **d: Eisenstein_Hu(cosmology(d), d["k"], t),
                    lambda osc=osc, **d: eh_spec(params(d), d["k"], osc),
                    "the same on %s scales" % n,
                    atol=1e-10,
                    rtol=1e-6,
                )
            )
    obs.append(
        Ob(
            "default",
            dict(cosmo_inputs(P), k=K(2)),
            lambda **d: Eisenstein_Hu(cosmology(d), d["k"]),
            lambda **d: eh_spec(params(d), d["k"], True),
            "the wiggles are there by default",
            atol=1e-10,
            rtol=1e-6,
        )
    )
    for n in ("bbks", "Eisenhu", "", "eisenhu_osc "):
        obs.append(
            Ob(
                "unknown/" + (n.strip() or "empty") + ("_" if n.endswith(" ") else ""),
                dict(cosmo_inputs(P), k=K()),
                lambda n=n, **d: Eisenstein_Hu(cosmology(d), d["k"], type=n),
                None,
                "other types are refused",
                kind="raises",
                exc=NotImplementedError,
            )
        )
    return obs
