"""C03 Friedmann budget"""
import jax
import jax.numpy as jnp

import jax_cosmo.background as bk

from .common import *

A = lambda *s: In(1e-3, 5.0, s, special=(1.0,))


def obligations(tier):
    ci = cosmo_inputs
    obs = []

    def eq(name, impl, spec, claim, shapes=((), (2,), (2, 2)), **kw):
        for s in shapes:
            obs.append(
                Ob(
                    name + "/a" + "x".join(map(str, s)),
                    dict(ci(), a=A(*s)),
                    lambda impl=impl, **d: impl(cosmology(d), d["a"]),
                    lambda spec=spec, **d: spec(params(d), d["a"]),
                    claim,
                    **kw
                )
            )

    eq("esqr", bk.Esqr, E2, "E^2 = Om a^-3 + Ok a^-2 + Ode exp(f_de)")
    eq("hubble", bk.H, H, "H = 100 sqrt(E^2)")
    eq("omega_m", bk.Omega_m_a, Om_a, "Omega_m(a) = Om a^-3 / E^2")
    eq("omega_de", bk.Omega_de_a, Ode_a, "Omega_de(a) = Ode f / E^2")
    eq("w", bk.w, w_a, "w = w0 + wa (1 - a)")
    eq(
        "f_de",
        bk.f_de,
        lambda p, a: -3 * (1 + p["w0"] + p["wa"]) * jnp.log(a) - 3 * p["wa"] * (1 - a),
        "f_de = -3 (1 + w0 + wa) ln a - 3 wa (1 - a)",
        atol=1e-12,
    )
    eq(
        "budget",
        lambda c, a: bk.Omega_m_a(c, a) + bk.Omega_de_a(c, a) + c.Omega_k / (a**2 * bk.Esqr(c, a)),
        lambda p, a: jnp.ones_like(a),
        "the density fractions sum to one at every scale factor",
        shapes=((), (2,)),
    )
    obs.append(
        Ob(
            "today",
            ci(),
            lambda **d: [
                bk.Esqr(cosmology(d), 1.0),
                bk.H(cosmology(d), 1.0),
                bk.Omega_m_a(cosmology(d), 1.0),
                bk.Omega_de_a(cosmology(d), 1.0),
                bk.f_de(cosmology(d), 1.0),
                bk.w(cosmology(d), 1.0),
            ],
            lambda **d: [1.0, 100.0, om(params(d)), ode_(params(d)), 0.0, params(d)["w0"]],
            "E(1) = 1, H(1) = 100, density parameters today, with a Python float as scale factor",
            atol=1e-12,
        )
    )
    obs.append(
        Ob(
            "derived",
            ci(),
            lambda **d: (lambda c: [c.Omega, c.Omega_m, c.Omega_de, c.k, c.sqrtk, c.Omega_b, c.Omega_c, c.h, c.n_s, c.sigma8, c.w0, c.wa, c.Omega_k])(
                cosmology(d)
            ),
            lambda **d: (
                lambda p: [
                    1 - p["Omega_k"],
                    om(p),
                    ode_(p),
                    jnp.where(p["Omega_k"] > 0, -1, jnp.where(p["Omega_k"] < 0, 1, 0)),
                    jnp.sqrt(jnp.abs(p["Omega_k"])),
                ]
                + [p[n] for n in ("Omega_b", "Omega_c", "h", "n_s", "sigma8", "w0", "wa", "Omega_k")]
            )(params(d)),
            "derived densities, sign and square root of the curvature, accessors",
        )
    )
    obs.append(
        Ob(
            "continuity",
            dict(ci(), a=A()),
            lambda **d: jax.jvp(lambda a: bk.f_de(cosmology(d), a), (d["a"],), (d["a"],))[1],
            lambda **d: -3 * (1 + bk.w(cosmology(d), d["a"])),
            "d f_de / d ln a = -3 (1 + w(a)): the density follows from the equation of state",
            atol=1e-12,
        )
    )
    obs.append(
        Ob(
            "gamma-same",
            dict(ci(gamma=True), a=A(2)),
            lambda **d: [bk.Esqr(cosmology(d), d["a"]), bk.H(cosmology(d), d["a"]), bk.Omega_m_a(cosmology(d), d["a"]), bk.Omega_de_a(cosmology(d), d["a"])],
            lambda **d: [E2(params(d), d["a"]), H(params(d), d["a"]), Om_a(params(d), d["a"]), Ode_a(params(d), d["a"])],
            "the growth index does not enter the expansion",
        )
    )
    obs.append(
        Ob(
            "positive",
            dict(ci(box=dict(w0=(-1.3, -0.6), wa=(-0.3, 0.3), Omega_k=(-0.1, 0.1))), a=In(1e-3, 1.0)),
            lambda **d: bk.Esqr(cosmology(d), d["a"]),
            claim="E^2 > 0 for 1e-3 <= a <= 1",
            kind="nonneg",
            strict=True,
        )
    )
    return obs
