"""C01 pytree round trips"""
import jax
import jax.tree_util as tu

import jax_cosmo.background as bk
import jax_cosmo.bias as jb
import jax_cosmo.probes as pr
import jax_cosmo.redshift as rds
from jax_cosmo.parameters import Planck15
from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Spline

from .bins import any_bias, any_nz
from .common import *

ATTRS = NAMES + ["gamma"]
DERIVED = ["Omega", "Omega_b", "Omega_c", "Omega_m", "Omega_de", "Omega_k", "k", "sqrtk", "h", "w0", "wa", "n_s", "sigma8"]


def obs_cosmo(c):
    r = [getattr(c, n) for n in DERIVED]
    if c.gamma is not None:
        r.append(c.gamma)
    return r + [bk.H(c, jnp.asarray(0.5))]


def obs_config(o):
    """Static settings"""
    out = []
    for v in tu.tree_leaves({k: v for k, v in o.config.items()}):
        out.append(float(v) if isinstance(v, (int, float, bool)) else v)
    return out


Z = jnp.asarray([0.4])


def obs_nz(o):
    return [o(Z), o.pz_fn(Z), o.zmax, o.gals_per_arcmin2, o.gals_per_steradian] + obs_config(o)


def obs_plane(o):
    # compared through its parameter: a plane has no density anywhere else
    return [o.params[0], o.zmax, o.gals_per_arcmin2, o.gals_per_steradian] + obs_config(o)


def obs_bias(o):
    return [o(fid(), Z)] + obs_config(o)


def fid():
    return jc.Cosmology(**FID)


def obs_probe(o):
    return [o.kernel(fid(), Z, 30.0), o.noise(), o.zmax, o.n_tracers] + obs_config(o)


def obs_spline(o):
    x = jnp.asarray([0.1, 1.3, 3.9])
    return [o(x), o.derivative(x), o.antiderivative(x), float(o.k)]


def kinds():
    """name: (inputs, constructor, observations)"""
    B = lambda lo, hi, *s: In(lo, hi, s)
    K = {}
    C8 = {n: In(*BOX[n]) for n in NAMES}
    K["cosmology"] = (C8, lambda **d: jc.Cosmology(**d), obs_cosmo)
    K["cosmology-gamma"] = (dict(C8, gamma=B(0.3, 0.8)), lambda **d: jc.Cosmology(**d), obs_cosmo)
    K["planck15"] = (C8, lambda **d: Planck15(**d), obs_cosmo)
    S = dict(a=B(1.0, 3.0), b=B(0.8, 2.0), z0=B(0.1, 1.0), g=B(1.0, 30.0))
    K["smail"] = (S, lambda a, b, z0, g: rds.smail_nz(a, b, z0, gals_per_arcmin2=g, zmax=3.0), obs_nz)
    K["smail-default"] = ({k: S[k] for k in ("a", "b", "z0")}, lambda a, b, z0: rds.smail_nz(a, b, z0), obs_nz)
    K["plane"] = (dict(z=B(0.2, 2.0), g=B(1.0, 30.0)), lambda z, g: rds.delta_nz(z, gals_per_arcmin2=g, zmax=4.0), obs_plane)
    K["kde"] = (
        dict(zc=B(0.2, 2.0, 2), wt=B(0.1, 1.0, 2), g=B(1.0, 30.0)),
        lambda zc, wt, g: rds.kde_nz(zc, wt, bw=0.2, gals_per_arcmin2=g, zmax=3.0),
        obs_nz,
    )
    K["shift"] = (
        dict(p=B(0.5, 2.0), s=B(-0.1, 0.1), g=B(1.0, 30.0), h=B(1.0, 30.0)),
        lambda p, s, g, h: rds.systematic_shift(any_nz(p, zmax=2.0, gals_per_arcmin2=h), s, zmax=2.5, gals_per_arcmin2=g),
        obs_nz,
    )
    K["bias"] = (dict(b=B(0.5, 3.0)), lambda b: jb.constant_linear_bias(b), obs_bias)
    K["bias-growth"] = (dict(b=B(0.5, 3.0)), lambda b: jb.inverse_growth_linear_bias(b), obs_bias)
    K["bias-ia"] = (dict(A=B(-3.0, 3.0), eta=B(-2.0, 2.0), z0=B(0.1, 1.0)), lambda A, eta, z0: jb.des_y1_ia_bias(A, eta, z0), obs_bias)
    two = lambda d: [any_nz(d["p"], zmax=2.0, gals_per_arcmin2=d["g"]), any_nz(d["q"], zmax=3.0, gals_per_arcmin2=d["h"])]
    T = dict(p=B(0.5, 2.0), g=B(1.0, 30.0), q=B(0.5, 2.0), h=B(1.0, 30.0))
    M, M2 = dict(m=B(-0.3, 0.3)), dict(m=B(-0.3, 0.3), n=B(-0.3, 0.3))
    E, E2 = dict(e=B(0.5, 3.0)), dict(e=B(0.5, 3.0), f=B(0.5, 3.0))
    mm = lambda d: [d["m"], d["n"]] if "n" in d else d["m"]
    ee = lambda d: [any_bias(d["e"]), any_bias(d["f"])] if "f" in d else any_bias(d["e"])
    for nm, extra in (("m", M), ("m2", M2), ("m-ia", dict(M, **E)), ("m2-ia", dict(M2, **E)), ("m-ia2", dict(M, **E2)), ("m2-ia2", dict(M2, **E2))):
        K["lensing-" + nm] = (
            dict(T, **extra),
            lambda **d: pr.WeakLensing(two(d), multiplicative_bias=mm(d), sigma_e=0.3, **(dict(ia_bias=ee(d)) if "e" in d else {})),
            obs_probe,
        )
    K["lensing-sigma2"] = (dict(T, **M), lambda **d: pr.WeakLensing(two(d), multiplicative_bias=d["m"], sigma_e=[0.2, 0.3]), obs_probe)
    K["lensing-positional"] = (dict(T, **M, **E), lambda **d: pr.WeakLensing(two(d), any_bias(d["e"]), d["m"], 0.31), obs_probe)
    K["lensing-plane"] = (
        dict(z=B(1.0, 2.0), g=B(1.0, 30.0), **M),
        lambda **d: pr.WeakLensing([rds.delta_nz(d["z"], gals_per_arcmin2=d["g"])], multiplicative_bias=d["m"]),
        obs_probe,
    )
    K["counts"] = (dict(T, **E), lambda **d: pr.NumberCounts(two(d), any_bias(d["e"])), obs_probe)
    K["counts-2"] = (dict(T, **E2), lambda **d: pr.NumberCounts(two(d), ee(d), has_rsd=False), obs_probe)
    K["counts-mixed"] = (
        dict(T, b=B(0.5, 3.0), e=B(0.5, 3.0)),
        lambda **d: pr.NumberCounts(two(d), [jb.constant_linear_bias(d["b"]), any_bias(d["e"])]),
        obs_probe,
    )
    return K


def splines():
    x = [0.0, 0.7, 1.1, 2.5, 3.0]
    for k, end in ((1, "not-a-knot"), (2, "not-a-knot"), (3, "not-a-knot"), (3, "natural")):
        yield "spline%d-%s" % (k, end[:3]), lambda y, k=k, end=end: Spline(jnp.asarray(x), y, k=k, endpoints=end)


def flat(d, inputs):
    return jnp.concatenate([jnp.ravel(d[k]) for k in inputs])


def leaf_vector(o):
    ls = tu.tree_leaves(o)
    return jnp.concatenate([jnp.ravel(jnp.asarray(l, dtype=float)) for l in ls]) if ls else jnp.zeros(0)


def permutation(inputs, make):
    """Which entry of the leaves is which parameter, found from distinct values"""
    rng = np.random.default_rng(7)
    v = {k: rng.uniform(i.lo, i.hi, i.shape)[()] for k, i in inputs.items()}
    L = np.concatenate([np.ravel(np.asarray(x, dtype=float)) for x in tu.tree_leaves(make(**v))])
    P = np.concatenate([np.ravel(v[k]) for k in inputs])
    out = []
    for x in P:
        j = np.nonzero(L == x)[0]
        if len(j) != 1:
            raise AssertionError("a parameter appears %d times among the leaves" % len(j))
        out.append(int(j[0]))
    return np.array(out, int)


def rebuild(treedef_of, leaves_of):
    return tu.tree_unflatten(tu.tree_structure(treedef_of), tu.tree_leaves(leaves_of))


def obligations(tier):
    obs = []

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-12)
        kw.setdefault("rtol", 1e-9)
        kw.setdefault("budget", 60)
        kw.setdefault("eager", 1)
        kw.setdefault("points", 4)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    double = lambda inputs: dict(inputs, **{"new_" + k: v for k, v in inputs.items()})
    old = lambda d: {k: v for k, v in d.items() if not k.startswith("new_")}
    new = lambda d: {k[4:]: v for k, v in d.items() if k.startswith("new_")}
    for name, (inputs, make, watch) in kinds().items():
        if tier == "quick" and name in ("lensing-m2", "lensing-m-ia", "lensing-m2-ia", "lensing-m-ia2", "smail-default"):
            continue
        w = lambda o, watch=watch: [jnp.asarray(x, dtype=float) for x in watch(o)]
        eq(
            name + "/roundtrip",
            inputs,
            lambda make=make, w=w, **d: (lambda o: w(rebuild(o, o)) + w(rebuild(rebuild(o, o), rebuild(o, o))) + w(tu.tree_map(lambda x: x, o)))(make(**d)),
            lambda make=make, w=w, **d: w(make(**d)) * 3,
            "taken apart and rebuilt, once and twice",
        )
        eq(
            name + "/leaves",
            inputs,
            lambda make=make, inputs=inputs, **d: leaf_vector(make(**d))[permutation(inputs, make)],
            lambda inputs=inputs, **d: flat(d, inputs),
            "the leaves are the parameters, each once",
        )
        eq(
            name + "/replaced",
            double(inputs),
            lambda make=make, w=w, **d: w(rebuild(make(**old(d)), make(**new(d)))),
            lambda make=make, w=w, **d: w(make(**new(d))),
            "rebuilt with other parameters it is the object of those parameters",
        )
        def used(o, w=w):
            w(o)
            return o

        eq(
            name + "/used",
            double(inputs),
            lambda make=make, w=w, used=used, **d: w(rebuild(used(make(**old(d))), make(**new(d)))) + w(rebuild(make(**new(d)), used(make(**old(d))))),
            lambda make=make, w=w, **d: w(make(**new(d))) + w(make(**old(d))),
            "the same after having been used: what was stored on the object does not make the trip",
        )
        eq(
            name + "/one",
            double(inputs),
            lambda make=make, w=w, inputs=inputs, **d: [
                w(
                    (lambda o, p: tu.tree_unflatten(tu.tree_structure(o), put(o, p, flat(new(d), inputs), i)))(
                        make(**old(d)), permutation(inputs, make)
                    )
                )
                for i in picks(inputs)
            ],
            lambda make=make, w=w, inputs=inputs, **d: [w(make(**swap(old(d), new(d), inputs, i))) for i in picks(inputs)],
            "replacing one leaf changes that parameter and no other",
        )
        eq(
            name + "/jit",
            inputs,
            lambda make=make, w=w, **d: w(jax.jit(lambda o: o)(make(**d))) + jax.jit(lambda o: w(o))(make(**d)),
            lambda make=make, w=w, **d: w(make(**d)) * 2,
            "through jit",
        )
        eq(
            name + "/vmap",
            double(inputs),
            lambda make=make, w=w, **d: jax.vmap(lambda o: w(o))(tu.tree_map(lambda x, y: jnp.stack([jnp.asarray(x), jnp.asarray(y)]), make(**old(d)), make(**new(d)))),
            lambda make=make, w=w, **d: [jnp.stack([a, b]) for a, b in zip(w(make(**old(d))), w(make(**new(d))))],
            "through vmap",
        )
        total = lambda o, w=w: sum((i + 1.0) * jnp.sum(x) for i, x in enumerate(w(o)))
        eq(
            name + "/grad",
            inputs,
            lambda make=make, inputs=inputs, total=total, **d: leaf_vector(jax.grad(total)(make(**d)))[permutation(inputs, make)],
            lambda make=make, inputs=inputs, total=total, **d: flat(jax.grad(lambda q: total(make(**q)))(d), inputs),
            "gradients with respect to the object are those with respect to its parameters, in the same places",
            rtol=1e-6,
            atol=1e-8,
        )
        if name.startswith("cosmology"):
            eq(
                name + "/growth",
                inputs,
                lambda make=make, **d: bk.growth_factor(rebuild(make(**d), make(**d)), jnp.asarray([0.4])),
                lambda **d: growth(params(d), jnp.asarray([0.4]), d.get("gamma")),
                "the rebuilt cosmology grows structure by the same prescription",
                rtol=1e-6,
                stubs=("interp", "linalg"),
            )
    for name, make in splines():
        Y = dict(y=In(-3.0, 3.0, (5,)), c=In(0.5, 2.0))
        w = lambda o: [jnp.asarray(x, dtype=float) for x in obs_spline(o)]
        eq(
            name + "/roundtrip",
            Y,
            lambda make=make, w=w, **d: (lambda o: w(rebuild(o, o)) + w(jax.jit(lambda o: o)(o)) + jax.jit(lambda o: w(o))(o))(make(d["y"])),
            lambda make=make, w=w, **d: w(make(d["y"])) * 3,
            "splines through flatten, unflatten and jit",
            stubs=("linalg",),
        )
        eq(
            name + "/scaled",
            Y,
            lambda make=make, w=w, **d: (lambda o: w(tu.tree_unflatten(tu.tree_structure(o), [tu.tree_leaves(o)[0]] + [d["c"] * x for x in tu.tree_leaves(o)[1:]])))(make(d["y"])),
            lambda make=make, w=w, **d: w(make(d["c"] * d["y"])),
            "the leaves of a spline are its knots, ordinates and coefficients: scaling the last two scales the spline",
            stubs=("linalg",),
        )
        eq(
            name + "/vmap",
            Y,
            lambda make=make, w=w, **d: jax.vmap(lambda y: w(make(y))[0])(jnp.stack([d["y"], d["c"] * d["y"]])),
            lambda make=make, w=w, **d: jnp.stack([w(make(d["y"]))[0], w(make(d["c"] * d["y"]))[0]]),
            "through vmap",
            stubs=("linalg",),
        )
    return obs


def picks(inputs):
    n = sum(len(v.names(k)) for k, v in inputs.items())
    return range(n)


def swap(o, n, inputs, i):
    """The parameters o, entry i taken from n"""
    r = dict(o)
    j = 0
    for k, v in inputs.items():
        m = len(v.names(k))
        if j <= i < j + m:
            f = jnp.ravel(o[k]).at[i - j].set(jnp.ravel(n[k])[i - j])
            r[k] = f.reshape(v.shape)
        j += m
    return r


def put(o, perm, values, i):
    """The leaves of o, the one of parameter i replaced"""
    out, j = [], 0
    for l in tu.tree_leaves(o):
        a = jnp.asarray(l, dtype=float)
        f = jnp.ravel(a)
        q = int(perm[i]) - j
        if 0 <= q < f.shape[0]:
            f = f.at[q].set(values[i])
        out.append(f.reshape(a.shape))
        j += f.shape[0]
    return out
