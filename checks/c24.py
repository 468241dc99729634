"""C24 values decide, not number types or the kind of container"""
import jax

import jax_cosmo.background as bk
import jax_cosmo.bias as jb
import jax_cosmo.likelihood as lk
import jax_cosmo.power as pw
import jax_cosmo.probes as pr
import jax_cosmo.redshift as rds
import jax_cosmo.sparse as sp
import jax_cosmo.transfer as tk
from jax_cosmo.angular_cl import angular_cl, gaussian_cl_covariance, noise_cl
from jax_cosmo.scipy.integrate import romb, simps
from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline, interp
from jax_cosmo.scipy.ode import odeint
from jax_cosmo.utils import a2z, z2a

from .bins import *
from .c11 import any_transfer
from .c17 import any_probe, pk_any
from .lemmas import F, RHS

# the same values as different numbers
KINDS = dict(
    int=lambda v: int(v[0]),
    float=lambda v: float(v[0]),
    numpy=lambda v: np.asarray(v, dtype=np.int64),
    numpy_float=lambda v: np.asarray(v, dtype=np.float64),
    int64=lambda v: jnp.asarray(v, dtype=jnp.int64),
    float32=lambda v: jnp.asarray(v, dtype=jnp.float32),
    numpy_scalar=lambda v: np.float64(v[0]),
    int_scalar=lambda v: jnp.asarray(v[0], dtype=jnp.int64),
)
SCALAR = ("int", "float", "numpy_scalar", "int_scalar")


def obligations(tier):
    obs = []
    ci = cosmo_inputs
    big = tier != "quick"
    P3 = ("Omega_c", "Omega_k", "w0", "wa")

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-9)
        kw.setdefault("rtol", 1e-6)
        kw.setdefault("eager", 1)
        kw.setdefault("shapes", False)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def same(name, inputs, f, v, kinds, **kw):
        """f(d, x) does not depend on the type of x"""
        for s in (True, False):
            ks = [k for k in kinds if (k in SCALAR) == s]
            if not ks:
                continue
            ref = jnp.asarray(v[0] if s else v, dtype=float)
            eq(
                "%s/%s" % (name, "scalars" if s else "arrays"),
                inputs,
                lambda ks=ks, **d: [f(d, KINDS[k](v)) for k in ks],
                lambda ks=ks, ref=ref, **d: [f(d, ref) for k in ks],
                "%s: %s" % (name, ", ".join(ks)),
                **kw,
            )

    ALL = tuple(KINDS)
    X64 = tuple(k for k in KINDS if k != "float32")
    fn = dict(
        w=bk.w,
        f_de=bk.f_de,
        Esqr=bk.Esqr,
        H=bk.H,
        Omega_m_a=bk.Omega_m_a,
        Omega_de_a=bk.Omega_de_a,
        chi=bk.radial_comoving_distance,
        dchioverda=bk.dchioverda,
        transverse=bk.transverse_comoving_distance,
        angular=bk.angular_diameter_distance,
        growth=bk.growth_factor,
        rate=bk.growth_rate,
    )
    for n, f in fn.items():
        same("background/" + n, ci(), lambda d, x, f=f: f(cosmology(d), x), [1, 2, 1], X64)
    for n in ("growth", "rate"):
        same("gamma/" + n, ci(gamma=True), lambda d, x, f=fn[n]: f(cosmology(d), x), [1, 1], X64)
    same("a_of_chi", ci(P3), lambda d, x: bk.a_of_chi(cosmology(d), x), [1000, 2500], X64)
    same("z2a", {}, lambda d, x: z2a(x), [0, 3, 7], ALL)
    same("a2z", {}, lambda d, x: a2z(x), [1, 2], ALL)

    T = ("Omega_c", "Omega_b", "h")
    for ty in ("eisenhu", "eisenhu_osc"):
        same("transfer/" + ty, ci(T), lambda d, x, ty=ty: tk.Eisenstein_Hu(cosmology(d), x, type=ty), [1, 2, 5], X64)
    S = ("n_s", "sigma8", "Omega_b")
    same("primordial", ci(S), lambda d, x: pw.primordial_matter_power(cosmology(d), x), [1, 3, 10], X64)
    same("linear/k", ci(S), lambda d, x: pw.linear_matter_power(cosmology(d), x, 0.5, any_transfer), [1, 3], X64, atol=0.0)
    same("linear/a", ci(S), lambda d, x: pw.linear_matter_power(cosmology(d), 0.2, x, any_transfer), [1, 1], X64, atol=0.0)
    N = ("n_s", "sigma8")
    for pres in ("smith2003", "takahashi2012"):
        ks = ("int", "int64") if not big else X64
        same(
            "halofit/k/" + pres,
            ci(N),
            lambda d, x, pres=pres: pw.halofit(cosmology(d), x, 0.5, any_transfer, prescription=pres),
            [1, 3],
            ks,
            atol=0.0,
            rtol=1e-5,
        )
        same(
            "halofit/a/" + pres,
            ci(N),
            lambda d, x, pres=pres: pw.halofit(cosmology(d), 0.2, x, any_transfer, prescription=pres),
            [1],
            ("int", "numpy") if not big else X64,
            atol=0.0,
            rtol=1e-5,
        )
    eq(
        "variance",
        ci(S),
        lambda **d: [pw.sigmasqr(cosmology(d), 8, any_transfer, kmin=1, kmax=100), pw.sigmasqr(cosmology(d), np.int64(5), any_transfer)],
        lambda **d: [pw.sigmasqr(cosmology(d), 8.0, any_transfer, kmin=1.0, kmax=100.0), pw.sigmasqr(cosmology(d), 5.0, any_transfer)],
        "integer radius and wave numbers",
        atol=0.0,
    )

    # integer cosmological parameters: curvature 0, n_s 1, sigma8 1, w0 -1, wa 0
    ints = dict(n_s=1, sigma8=1, Omega_k=0, w0=-1, wa=0)
    flts = {k: float(v) for k, v in ints.items()}
    C1 = lambda d: jc.Cosmology(Omega_c=d["Omega_c"], Omega_b=d["Omega_b"], h=d["h"], **ints)
    C2 = lambda d: jc.Cosmology(Omega_c=d["Omega_c"], Omega_b=d["Omega_b"], h=d["h"], **flts)
    I = dict(ci(T), a=In(0.05, 1.0, (2,)))
    for n, f in fn.items():
        eq("parameters/" + n, I, lambda f=f, **d: f(C1(d), d["a"]), lambda f=f, **d: f(C2(d), d["a"]), "integer cosmological parameters: " + n)
    eq(
        "parameters/linear",
        dict(ci(("Omega_b",)), k=In(1e-3, 10.0, (2,))),
        lambda **d: pw.linear_matter_power(C1(dict(FID, **d)), d["k"], 0.5, any_transfer),
        lambda **d: pw.linear_matter_power(C2(dict(FID, **d)), d["k"], 0.5, any_transfer),
        "integer cosmological parameters: linear power",
        atol=0.0,
    )
    eq(
        "parameters/gamma",
        I,
        lambda **d: bk.growth_factor(jc.Cosmology(Omega_c=d["Omega_c"], Omega_b=d["Omega_b"], h=d["h"], gamma=1, **ints), d["a"]),
        lambda **d: bk.growth_factor(jc.Cosmology(Omega_c=d["Omega_c"], Omega_b=d["Omega_b"], h=d["h"], gamma=1.0, **flts), d["a"]),
        "integer growth index",
    )

    # ---------------------------------------------------------------- redshifts
    ZV = [0, 1, 2]
    Q = dict(b=In(0.2, 3.0), e=In(-3.0, 3.0))
    same("bias/constant", dict(ci(P3), **Q), lambda d, x: jb.constant_linear_bias(d["b"])(cosmology(d), x), ZV, X64)
    same("bias/growth", dict(ci(P3), **Q), lambda d, x: jb.inverse_growth_linear_bias(d["b"])(cosmology(d), x), ZV, X64)
    same("bias/ia", dict(ci(("Omega_c",)), z0=In(0.1, 1.0), **Q), lambda d, x: jb.des_y1_ia_bias(d["b"], d["e"], d["z0"])(cosmology(d), x), ZV, X64)
    eq(
        "bias/parameters",
        dict(ci(P3), z=In(0.0, 3.0, (2,))),
        lambda **d: [b(cosmology(d), d["z"]) for b in (jb.constant_linear_bias(2), jb.inverse_growth_linear_bias(2), jb.des_y1_ia_bias(2, 1, 1))],
        lambda **d: [b(cosmology(d), d["z"]) for b in (jb.constant_linear_bias(2.0), jb.inverse_growth_linear_bias(2.0), jb.des_y1_ia_bias(2.0, 1.0, 1.0))],
        "integer parameters of the bias models",
    )
    SM = dict(a=In(1.0, 3.0), b=In(0.8, 2.0), z0=In(0.3, 1.0))
    same("nz/smail", SM, lambda d, x: rds.smail_nz(d["a"], d["b"], d["z0"], zmax=3.0)(x), [1, 2, 3], X64)
    same("nz/any", dict(p=In(0.5, 2.0)), lambda d, x: any_nz(d["p"], zmax=3.0)(x), ZV, X64)
    same("nz/zmax", dict(p=In(0.5, 2.0), z=In(0.0, 3.0)), lambda d, x: any_nz(d["p"], zmax=x)(d["z"]), [3], ("int", "float"))
    same("nz/shift", dict(p=In(0.5, 2.0), s=In(-0.3, 0.3)), lambda d, x: rds.systematic_shift(any_nz(d["p"], zmax=3.0), d["s"], zmax=3.0)(x), ZV, X64)
    same("nz/shift-by", dict(p=In(0.5, 2.0), z=In(0.0, 3.0)), lambda d, x: rds.systematic_shift(any_nz(d["p"], zmax=3.0), x, zmax=3.0)(d["z"]), [1], ("int", "float", "int_scalar"))
    same("nz/density", dict(p=In(0.5, 2.0)), lambda d, x: any_nz(d["p"], zmax=3.0, gals_per_arcmin2=x).gals_per_steradian, [5], ("int", "float", "int_scalar"))
    eq(
        "nz/smail-parameters",
        dict(z=In(0.0, 3.0, (2,))),
        lambda **d: [rds.smail_nz(2, 1, 1, zmax=3)(d["z"]), rds.smail_nz(2, 1, np.int64(1))(d["z"])],
        lambda **d: [rds.smail_nz(2.0, 1.0, 1.0, zmax=3.0)(d["z"]), rds.smail_nz(2.0, 1.0, 1.0)(d["z"])],
        "integer parameters of the Smail distribution",
    )
    kz, kw_ = [0, 1, 2, 3], [1, 5, 3, 2]
    for k in ("numpy", "int64", "numpy_float"):
        eq(
            "nz/kde/" + k,
            dict(z=In(0.0, 3.0, (2,)), bw=In(0.3, 1.0)),
            lambda k=k, **d: rds.kde_nz(jnp.asarray(KINDS[k](kz)), jnp.asarray(KINDS[k](kw_)), bw=d["bw"], zmax=4.0)(d["z"]),
            lambda **d: rds.kde_nz(jnp.asarray(kz, dtype=float), jnp.asarray(kw_, dtype=float), bw=d["bw"], zmax=4.0)(d["z"]),
            "catalogues of numbers and weights of type " + k,
        )

    # ---------------------------------------------------------------- probes
    K = dict(p=In(0.5, 2.0), m=In(-0.2, 0.2))
    c = lambda: jc.Cosmology(**FID)
    wl = lambda d, **kw: pr.WeakLensing([any_nz(d["p"], zmax=3.0)], **kw)
    nc = lambda d: pr.NumberCounts([any_nz(d["p"], zmax=3.0)], jb.constant_linear_bias(1.5))
    same("lensing/z", K, lambda d, x: wl(d, multiplicative_bias=d["m"]).kernel(c(), x, 20.0), [1, 2], X64)
    same("lensing/ell", K, lambda d, x: wl(d, multiplicative_bias=d["m"]).kernel(c(), jnp.asarray([0.5, 1.0]), x), [20], ("int", "float", "int_scalar"))
    eq(
        "lensing/ia",
        K,
        lambda **d: wl(d, ia_bias=jb.des_y1_ia_bias(1, 1, 1)).kernel(c(), jnp.asarray([1, 2]), 10),
        lambda **d: wl(d, ia_bias=jb.des_y1_ia_bias(1.0, 1.0, 1.0)).kernel(c(), jnp.asarray([1.0, 2.0]), 10.0),
        "alignments at integer redshifts",
    )
    same("lensing/m", K, lambda d, x: wl(d, multiplicative_bias=x).kernel(c(), jnp.asarray([0.5]), 20.0), [1], ("int", "float", "int_scalar"))
    same("lensing/sigma_e", K, lambda d, x: wl(d, sigma_e=x).noise(), [2], ("int", "float", "int_scalar"))
    same("counts/z", K, lambda d, x: nc(d).kernel(c(), x, 20.0), [1, 2], X64)
    same("counts/ell", K, lambda d, x: nc(d).kernel(c(), jnp.asarray([0.5, 1.0]), x), [20], ("int", "float", "int_scalar"))
    same(
        "spectra",
        K,
        lambda d, x: angular_cl(c(), x, [any_probe([d["p"]], zmax=2.0)], nonlinear_fn=pk_any),
        [20, 100, 1000],
        ("numpy", "int64", "numpy_float"),
        atol=0.0,
    )
    same(
        "spectra/lensing",
        dict(p=In(0.5, 2.0)),
        lambda d, x: angular_cl(c(), x, [wl(d)], nonlinear_fn=pk_any),
        [20, 100],
        ("numpy",),
        atol=0.0,
    )
    same("noise", K, lambda d, x: noise_cl(x, [wl(d), nc(d)]), [20, 100], ("numpy", "int64", "numpy_float"))
    CL = dict(s=In(-5.0, 5.0, (3, 3)), n=In(-5.0, 5.0, (3, 3)))
    for sparse in (True, False):
        same(
            "covariance/%s" % ("sparse" if sparse else "dense"),
            CL,
            lambda d, x, sparse=sparse: gaussian_cl_covariance(x, [any_probe([1.0, 2.0], zmax=2.0)], d["s"], d["n"], sparse=sparse),
            [20, 100, 250],
            ("numpy", "int64", "numpy_float"),
        )
    same(
        "covariance/sky",
        CL,
        lambda d, x: gaussian_cl_covariance(jnp.asarray([20.0, 100.0, 250.0]), [any_probe([1.0, 2.0], zmax=2.0)], d["s"], d["n"], f_sky=x),
        [1],
        ("int", "float"),
    )

    # ---------------------------------------------------------------- numerics
    B = dict(b=In(-3.0, 3.0))
    same("simps/limit", B, lambda d, x: simps(F, x, d["b"], 8), [1], SCALAR)
    same("romb/limit", B, lambda d, x: romb(F, x, d["b"], divmax=3), [1], SCALAR)
    eq("simps/limits", {}, lambda: simps(F, 0, 3, 8), lambda: simps(F, 0.0, 3.0, 8), "both limits integers")
    eq("romb/limits", {}, lambda: romb(F, 0, 3, divmax=3), lambda: romb(F, 0.0, 3.0, divmax=3), "both limits integers")
    same("odeint/times", dict(y=In(-2.0, 2.0)), lambda d, x: odeint(lambda y, t: RHS(y, t), d["y"], x), [0, 1, 3], ("numpy", "int64", "numpy_float"))
    same("interp/x", dict(f=In(-3.0, 3.0, (4,))), lambda d, x: interp(jnp.asarray(x), jnp.asarray([0.0, 2.0, 3.0, 6.0]), d["f"]), [1, 2, 5], ("numpy", "int64"), stubs=())
    same("interp/grid", dict(f=In(-3.0, 3.0, (4,)), x=In(-1.0, 7.0, (1,))), lambda d, x: interp(d["x"], jnp.asarray(x), d["f"]), [0, 2, 3, 6], ("numpy", "int64"), stubs=())
    same("interp/ordinates", dict(x=In(-1.0, 7.0, (1,))), lambda d, x: interp(d["x"], jnp.asarray([0.0, 2.0, 3.0, 6.0]), jnp.asarray(x)), [1, 5, 2, 7], ("numpy", "int64"), stubs=())
    G = [0, 2, 3, 5, 6, 8]
    for k in (1, 2, 3):
        Y = dict(y=In(-3.0, 3.0, (6,)))
        s = lambda x, y, k=k: InterpolatedUnivariateSpline(jnp.asarray(x), jnp.asarray(y), k=k)
        q = jnp.asarray([-0.5, 1.0, 4.2, 9.0])
        same("spline%d/grid" % k, Y, lambda d, x, s=s: [s(x, d["y"])(q), s(x, d["y"]).derivative(q), s(x, d["y"]).integral(0.5, 7.0)], G, ("numpy", "int64"))
        same("spline%d/data" % k, dict(q=In(-0.5, 8.5)), lambda d, x, s=s: [s(jnp.asarray(G, dtype=float), x)(d["q"]), s(jnp.asarray(G, dtype=float), x).antiderivative(jnp.atleast_1d(d["q"]))], [1, 5, 2, 3, 4, 7], ("numpy", "int64"))
        same("spline%d/x" % k, Y, lambda d, x, s=s: [s(jnp.asarray(G, dtype=float), d["y"])(x), s(jnp.asarray(G, dtype=float), d["y"]).derivative(x)], [0, 1, 4, 8, 9], ("int", "float", "numpy", "int64"))
        same("spline%d/limits" % k, Y, lambda d, x, s=s: s(jnp.asarray(G, dtype=float), d["y"]).integral(x, 7), [1], ("int", "float", "int_scalar"))

    # ---------------------------------------------------------------- matrices
    M = np.array([[[2, 1], [3, 4]], [[1, 5], [6, 2]]])
    V = dict(v=In(-3.0, 3.0, (4,)), s=In(-3.0, 3.0, (2, 2, 2)), m=In(-3.0, 3.0, (4, 4)))
    for dt in (np.int64,):
        n = np.dtype(dt).name
        A = lambda dt=dt: jnp.asarray(M, dtype=dt)
        AF = jnp.asarray(M, dtype=float)
        eq(
            "matrices/dot/" + n,
            V,
            lambda A=A, **d: [sp.dot(A(), d["v"]), sp.dot(d["v"], A()), sp.dot(A(), d["s"]), sp.dot(d["s"], A()), sp.dot(A(), d["m"]), sp.dot(d["m"], A()), sp.dot(d["m"], A(), d["m"]), sp.to_dense(A())],
            lambda AF=AF, **d: [sp.dot(AF, d["v"]), sp.dot(d["v"], AF), sp.dot(AF, d["s"]), sp.dot(d["s"], AF), sp.dot(AF, d["m"]), sp.dot(d["m"], AF), sp.dot(d["m"], AF, d["m"]), sp.to_dense(AF)],
            "integer sparse matrices",
        )
        eq(
            "matrices/inv/" + n,
            {},
            lambda A=A: [sp.inv(A()), sp.det(A()), *sp.slogdet(A())],
            lambda AF=AF: [sp.inv(AF), sp.det(AF), *sp.slogdet(AF)],
            "integer sparse matrices: inverse and determinants",
        )
        C = lambda dt=dt: jnp.asarray([[2, 1], [1, 4]], dtype=dt)
        CF = jnp.asarray([[2.0, 1.0], [1.0, 4.0]])
        for meth in ("inverse", "cholesky"):
            eq(
                "likelihood/%s/%s" % (meth, n),
                dict(r=In(-3.0, 3.0, (2,))),
                lambda C=C, meth=meth, dt=dt, **d: [lk.gaussian_log_likelihood(jnp.asarray([1, 2], dtype=dt), d["r"], C(), include_logdet=l, inverse_method=meth) for l in (True, False)],
                lambda CF=CF, meth=meth, **d: [lk.gaussian_log_likelihood(jnp.asarray([1.0, 2.0]), d["r"], CF, include_logdet=l, inverse_method=meth) for l in (True, False)],
                "integer data and covariances",
            )
        eq(
            "likelihood/sparse/" + n,
            dict(r=In(-3.0, 3.0, (4,))),
            lambda A=A, dt=dt, **d: lk.gaussian_log_likelihood(jnp.asarray([1, 2, 3, 4], dtype=dt), d["r"], A(), include_logdet=False),
            lambda AF=AF, **d: lk.gaussian_log_likelihood(jnp.asarray([1.0, 2.0, 3.0, 4.0]), d["r"], AF, include_logdet=False),
            "integer data and sparse covariances",
        )
    return obs
