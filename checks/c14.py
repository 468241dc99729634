"""C14 bias models and redshift / scale factor conversions"""
import jax_cosmo.bias as bias
from jax_cosmo.utils import a2z, z2a

from .common import *
from .lemmas import interp_lemmas, odeint_lemma


def obligations(tier):
    obs = []
    Z = lambda *s: In(0.0, 10.0, s, special=(0.0, 1.0))

    def eq(name, inputs, impl, spec, claim, **kw):
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    for s in ((), (1,), (3,), (2, 2)):
        n = "x".join(map(str, s))
        eq("z2a/" + n, dict(z=Z(*s)), lambda z: z2a(z), lambda z: 1.0 / (1.0 + z), "a = 1 / (1 + z)")
        eq("a2z/" + n, dict(a=In(0.01, 1.0, s, special=(1.0,))), lambda a: a2z(a), lambda a: (1.0 - a) / a, "z = 1 / a - 1", atol=1e-10)
        eq("roundtrip/" + n, dict(z=Z(*s)), lambda z: a2z(z2a(z)), lambda z: z, "converting there and back changes nothing", atol=1e-10)
        eq("roundtrip-a/" + n, dict(a=In(0.01, 1.0, s)), lambda a: z2a(a2z(a)), lambda a: a, "converting there and back changes nothing")
        eq(
            "constant/" + n,
            dict(cosmo_inputs(), b=In(-3, 3), z=Z(*s)),
            lambda **d: bias.constant_linear_bias(d["b"])(cosmology(d), d["z"]),
            lambda **d: jnp.broadcast_to(d["b"], d["z"].shape),
            "the constant bias does not depend on redshift nor cosmology",
        )
        eq(
            "ia/" + n,
            dict(cosmo_inputs(), A=In(-5, 5), eta=In(-4, 4, special=(0.0,)), z0=In(0.0, 3.0, special=(0.62,)), z=Z(*s)),
            lambda **d: bias.des_y1_ia_bias(d["A"], d["eta"], d["z0"])(cosmology(d), d["z"]),
            lambda **d: d["A"] * jnp.exp(d["eta"] * (jnp.log(1 + d["z"]) - jnp.log(1 + d["z0"]))),
            "A ((1+z)/(1+z0))^eta",
            atol=1e-12,
        )
    for s in ((1,), (2,)):
        for g in (False, True):
            eq(
                "growth/%s%s" % ("x".join(map(str, s)), "-gamma" if g else ""),
                dict(cosmo_inputs(gamma=g), b=In(0.1, 5.0), z=In(0.0, 9.0, s)),
                lambda **d: bias.inverse_growth_linear_bias(d["b"])(cosmology(d), d["z"]),
                lambda **d: d["b"] / growth(params(d), 1.0 / (1.0 + d["z"]), d.get("gamma")),
                "b / D(z)",
            )
    eq(
        "growth/today",
        dict(cosmo_inputs(), b=In(0.1, 5.0)),
        lambda **d: bias.inverse_growth_linear_bias(d["b"])(cosmology(d), jnp.zeros(1)),
        lambda **d: jnp.atleast_1d(d["b"]),
        "the parameter is the bias today",
    )
    eq(
        "scalar",
        dict(cosmo_inputs(), b=In(0.1, 5.0)),
        lambda **d: [
            bias.inverse_growth_linear_bias(d["b"])(cosmology(d), 0.5),
            bias.constant_linear_bias(d["b"])(cosmology(d), 0.5),
            bias.des_y1_ia_bias(d["b"], 1.0, 0.5)(cosmology(d), 0.5),
        ],
        lambda **d: [d["b"] / growth(params(d), 1.0 / 1.5), d["b"], d["b"]],
        "Python floats are accepted as redshift",
        shapes=False,
    )
    return obs + interp_lemmas() + [odeint_lemma()]
