"""JAX primitives with a symbolic meaning: uninterpreted functions and the contracts
of functions which are checked on their own (interpolation) or which are outside the
repository (LAPACK).  Outside of symbolic execution they run numerically.
"""
import contextlib
import functools
import sys

import jax
import jax.numpy as jnp
import numpy as np
from jax.extend.core import Primitive
from jax.interpreters import ad, batching, mlir

try:
    from jax.core import ShapedArray
except Exception:  # pragma: no cover
    from jax._src.core import ShapedArray

# ------------------------------------------------------------------ uninterpreted
UFS = {}  # name -> jnp function
UF_RANGE = {}



def _zero(x):
    return jnp.zeros(jnp.shape(x))


uf_p = Primitive("uf")


def _uf_impl(*args, name):
    return UFS_get(name)(*args)


def UFS_get(name):
    f = UFS.get(name)
    if f is None:
        base, i = name.rsplit(".d", 1)
        g = jax.grad(lambda *a: UFS_get(base)(*a), argnums=int(i))
        n = None

        def f(*args):
            sh = np.shape(args[0])
            flat = [jnp.ravel(jnp.broadcast_to(x, sh)).astype(float) for x in args]
            return jax.vmap(g)(*flat).reshape(sh)

        UFS[name] = f
    return f


@uf_p.def_impl
def _(*args, name):
    return UFS_get(name)(*[jnp.asarray(a) for a in args])


@uf_p.def_abstract_eval
def _(*avals, name):
    return ShapedArray(avals[0].shape, np.dtype("float64"))


def _uf_batch(args, dims, *, name):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    out = []
    for a, d in zip(args, dims):
        if d is None:
            a = jnp.broadcast_to(a[None], (size,) + a.shape)
        else:
            a = jnp.moveaxis(a, d, 0)
        out.append(a)
    return uf_p.bind(*out, name=name), 0


batching.primitive_batchers[uf_p] = _uf_batch


def _uf_jvp(primals, tangents, *, name):
    out = uf_p.bind(*primals, name=name)
    t = None
    for i, v in enumerate(tangents):
        if type(v) is ad.Zero:
            continue
        c = uf_p.bind(*primals, name=name + ".d%d" % i) * v
        t = c if t is None else t + c
    if t is None:
        t = _zero(out)
    return out, t


ad.primitive_jvps[uf_p] = _uf_jvp
mlir.register_lowering(uf_p, mlir.lower_fun(_uf_impl, multiple_results=False))


def uf(name, impl, lo=-np.inf, hi=np.inf):
    """An uninterpreted elementwise function; impl (jnp) is what it stands for in
    simulations and replays."""
    UFS[name] = impl
    UF_RANGE[name] = (lo, hi)

    def f(*args):
        args = jnp.broadcast_arrays(*[jnp.asarray(a, dtype=float) for a in args])
        return uf_p.bind(*args, name=name)

    f.__name__ = name
    return f


def np_uf(name):
    f = UFS_get(name)
    return lambda *a: np.asarray(f(*[jnp.asarray(x) for x in a]))


# ------------------------------------------------------------------ interpolation
# interp_p: x [B..., R...], xp [B..., n], fp [B..., n]; nb leading batch dims
interp_p = Primitive("interp_contract")


def _interp_num(x, xp, fp, slope):
    n = xp.shape[0]
    up = xp[-1] > xp[0]
    cnt = jnp.where(
        up,
        (xp[:, None] <= x.ravel()[None]).sum(0),
        (xp[:, None] >= x.ravel()[None]).sum(0),
    )
    i = jnp.clip(cnt - 1, 0, n - 2)
    s = (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
    r = s if slope else fp[i] + s * (x.ravel() - xp[i])
    return r.reshape(x.shape)


def _interp_impl(x, xp, fp, *, nb, slope):
    f = functools.partial(_interp_num, slope=slope)
    for _ in range(nb):
        f = jax.vmap(f)
    return f(x, xp, fp)


@interp_p.def_impl
def _(x, xp, fp, *, nb, slope):
    return _interp_impl(x, xp, fp, nb=nb, slope=slope)


@interp_p.def_abstract_eval
def _(x, xp, fp, *, nb, slope):
    return ShapedArray(x.shape, np.dtype("float64"))


def _interp_batch(args, dims, *, nb, slope):
    x, xp, fp = args
    dx, dp, df = dims
    if dp is None and df is None and nb == 0:
        return interp_p.bind(x, xp, fp, nb=nb, slope=slope), dx
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)

    def mv(a, d):
        if d is None:
            return jnp.broadcast_to(a[None], (size,) + a.shape)
        return jnp.moveaxis(a, d, 0)

    return (
        interp_p.bind(mv(x, dx), mv(xp, dp), mv(fp, df), nb=nb + 1, slope=slope),
        0,
    )


batching.primitive_batchers[interp_p] = _interp_batch


def _interp_jvp(primals, tangents, *, nb, slope):
    x, xp, fp = primals
    dx, dxp, dfp = tangents
    assert not slope
    out = interp_p.bind(x, xp, fp, nb=nb, slope=False)
    t = _zero(out)
    s = None

    def plus(t, c):
        return t + c

    if type(dfp) is not ad.Zero:
        t = plus(t, interp_p.bind(x, xp, dfp, nb=nb, slope=False))
    if type(dx) is not ad.Zero or type(dxp) is not ad.Zero:
        s = interp_p.bind(x, xp, fp, nb=nb, slope=True)
        if type(dx) is not ad.Zero:
            t = plus(t, s * dx)
        if type(dxp) is not ad.Zero:
            t = plus(t, -s * interp_p.bind(x, xp, dxp, nb=nb, slope=False))
    return out, t


ad.primitive_jvps[interp_p] = _interp_jvp
mlir.register_lowering(interp_p, mlir.lower_fun(_interp_impl, multiple_results=False))


# the weight of each ordinate: w[B..., R..., n]; what reverse mode needs
weight_p = Primitive("interp_weight")


def _weight_impl(x, xp, *, nb):
    def f(x, xp):
        n = xp.shape[0]
        return jax.vmap(lambda e: _interp_num(x, xp, e, False), out_axes=-1)(jnp.eye(n))

    for _ in range(nb):
        f = jax.vmap(f)
    return f(x, xp)


@weight_p.def_impl
def _(x, xp, *, nb):
    return _weight_impl(x, xp, nb=nb)


@weight_p.def_abstract_eval
def _(x, xp, *, nb):
    return ShapedArray(x.shape + xp.shape[-1:], np.dtype("float64"))


def _weight_batch(args, dims, *, nb):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    mv = lambda a, d: jnp.broadcast_to(a[None], (size,) + a.shape) if d is None else jnp.moveaxis(a, d, 0)
    return weight_p.bind(*[mv(a, d) for a, d in zip(args, dims)], nb=nb + 1), 0


batching.primitive_batchers[weight_p] = _weight_batch
mlir.register_lowering(weight_p, mlir.lower_fun(_weight_impl, multiple_results=False))


def _interp_transpose(ct, x, xp, fp, *, nb, slope):
    assert not slope
    if type(ct) is ad.Zero:
        return None, None, ad.Zero(fp.aval)
    w = weight_p.bind(x, xp, nb=nb)
    r = w * ct[..., None]
    return None, None, jnp.sum(r, axis=tuple(range(nb, r.ndim - 1)))


ad.primitive_transposes[interp_p] = _interp_transpose


def interp_contract(x, xp, fp):
    """Piecewise linear interpolation through (xp, fp): contract decided by C08"""
    x, xp, fp = [jnp.asarray(v, dtype=float) for v in (x, xp, fp)]
    if x.ndim != 1 or xp.ndim != 1 or fp.ndim != 1:
        # same precondition as the real function
        raise ValueError("interp: x, xp and fp need to be 1d arrays")
    return interp_p.bind(x, xp, fp, nb=0, slope=False)


# ------------------------------------------------------------------ linear algebra
# Explicit formulas of what LAPACK computes, for matrices of up to 3x3
def _det(A):
    n = A.shape[-1]
    if n == 1:
        return A[..., 0, 0]
    if n == 2:
        return A[..., 0, 0] * A[..., 1, 1] - A[..., 0, 1] * A[..., 1, 0]
    s = 0.0
    for j in range(n):
        s = s + (-1) ** j * A[..., 0, j] * _det(_minor(A, 0, j))
    return s


def _minor(A, i, j):
    n = A.shape[-1]
    r = [k for k in range(n) if k != i]
    c = [k for k in range(n) if k != j]
    return jnp.stack(
        [jnp.stack([A[..., a, b] for b in c], axis=-1) for a in r], axis=-2
    )


def _adj(A):
    n = A.shape[-1]
    if n == 1:
        return jnp.ones_like(A)
    return jnp.stack(
        [
            jnp.stack([(-1) ** (i + j) * _det(_minor(A, j, i)) for j in range(n)], axis=-1)
            for i in range(n)
        ],
        axis=-2,
    )


class TooLarge(Exception):
    pass


def _chk(A):
    A = jnp.asarray(A, dtype=float)
    if A.shape[-1] > 4:
        raise TooLarge("linear algebra contract limited to 4x4")
    return A


def inv_contract(a):
    a = _chk(a)
    return _adj(a) / _det(a)[..., None, None]


def det_contract(a):
    return _det(_chk(a))


def slogdet_contract(a, *, method=None):
    d = _det(_chk(a))
    from jax.numpy.linalg import slogdet as _  # noqa: keep the result type

    return _SlogdetResult(jnp.sign(d), jnp.log(jnp.abs(d)))


try:
    from jax._src.numpy.linalg import SlogdetResult as _SlogdetResult
except Exception:  # pragma: no cover
    import collections

    _SlogdetResult = collections.namedtuple("SlogdetResult", "sign logabsdet")

solve_p = Primitive("solve_contract")
solve_p.multiple_results = False


@solve_p.def_impl
def _(a, b):
    return jnp.asarray(np.linalg.solve(np.asarray(a), np.asarray(b)[:, None])[:, 0])


@solve_p.def_abstract_eval
def _(a, b):
    return ShapedArray(b.shape, np.dtype("float64"))


def _solve_jvp(primals, tangents):
    a, b = primals
    da, db = tangents
    z = solve_p.bind(a, b)
    zero = lambda t: type(t) is ad.Zero
    if zero(da) and zero(db):
        return z, ad.Zero.from_primal_value(z)
    r = None if zero(db) else ad.instantiate_zeros(db)
    if not zero(da):
        s = -jnp.sum(da * z[None, :], axis=1)
        r = s if r is None else r + s
    return z, solve_p.bind(a, r)


ad.primitive_jvps[solve_p] = _solve_jvp


def _solve_transpose(ct, a, b):
    if type(ct) is ad.Zero:
        return None, ad.Zero(b.aval)
    return None, solve_p.bind(jnp.transpose(a), ct)


ad.primitive_transposes[solve_p] = _solve_transpose

def _solve_batch(args, dims):
    a, b = args
    n = [x.shape[d] for x, d in zip(args, dims) if d is not None][0]
    mv = lambda x, d: [x] * n if d is None else list(jnp.moveaxis(x, d, 0))
    return jnp.stack([solve_p.bind(x, y) for x, y in zip(mv(a, dims[0]), mv(b, dims[1]))]), 0


batching.primitive_batchers[solve_p] = _solve_batch

_ORIG = {}


def solve_contract(a, b):
    a, b = jnp.asarray(a, dtype=float), jnp.asarray(b, dtype=float)
    if a.ndim == 2 and b.ndim == 1 and a.shape[0] > 3:
        return solve_p.bind(a, b)
    a = _chk(a)
    if b.ndim == 1:
        return (_adj(a) @ b) / _det(a)
    return (_adj(a) @ b) / _det(a)[..., None, None]


def _chol_lower(a):
    n = a.shape[-1]
    L = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j]
            for k in range(j):
                s = s - L[i][k] * L[j][k]
            L[i][j] = jnp.sqrt(s) if i == j else s / L[j][j]
    z = jnp.zeros(())
    return jnp.stack(
        [jnp.stack([L[i][j] if j <= i else z for j in range(n)]) for i in range(n)]
    )


def cholesky_contract(a, *, upper=False, symmetrize_input=True):
    a = _chk(a)
    if symmetrize_input:
        a = (a + a.T) / 2
    L = _chol_lower(a)
    return L.T if upper else L


def cho_factor_contract(a, lower=False, overwrite_a=False, check_finite=True):
    a = _chk(a)
    # only one triangle is read
    L = _chol_lower(a) if lower else _chol_lower(a.T).T
    n = a.shape[-1]
    # the other triangle is left as it was in a
    tri = np.tril(np.ones((n, n), bool)) if lower else np.triu(np.ones((n, n), bool))
    return jnp.where(tri, L, a), lower


def _fwd(L, b, unit=False):
    n = L.shape[-1]
    y = []
    for i in range(n):
        s = b[i]
        for k in range(i):
            s = s - L[i, k] * y[k]
        y.append(s if unit else s / L[i, i])
    return jnp.stack(y)


def _bwd(U, b, unit=False):
    n = U.shape[-1]
    y = [None] * n
    for i in reversed(range(n)):
        s = b[i]
        for k in range(i + 1, n):
            s = s - U[i, k] * y[k]
        y[i] = s if unit else s / U[i, i]
    return jnp.stack(y)


def cho_solve_contract(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    b = jnp.asarray(b, dtype=float)
    if lower:
        return _bwd(c.T, _fwd(c, b))
    return _bwd(c, _fwd(c.T, b))


def solve_triangular_contract(
    a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, debug=None, check_finite=True
):
    a = _chk(a)
    b = jnp.asarray(b, dtype=float)
    if trans in (1, "T", 2, "C"):
        a = a.T
        lower = not lower
    return (_fwd if lower else _bwd)(a, b, unit_diagonal)


def spsolve_contract(a, b, lower=False, overwrite_a=False, overwrite_b=False, debug=False, check_finite=True, assume_a="gen"):
    return solve_contract(a, b)


def _jc_modules():
    return [
        m
        for n, m in list(sys.modules.items())
        if (n == "jax_cosmo" or n.startswith("jax_cosmo.")) and m is not None
    ]


@contextlib.contextmanager
def patched(repl):
    """repl: list of (module or None, attribute or original object, replacement).
    With None, every attribute of a module of jax_cosmo which is the original object is
    replaced."""
    undo = []
    try:
        for mod, orig, new in repl:
            if mod is not None:
                undo.append((mod, orig, getattr(mod, orig)))
                setattr(mod, orig, new)
            else:
                for m in _jc_modules():
                    for k, v in list(vars(m).items()):
                        if v is orig:
                            undo.append((m, k, v))
                            setattr(m, k, new)
        jax.clear_caches()
        yield
    finally:
        for m, k, v in reversed(undo):
            setattr(m, k, v)
        jax.clear_caches()


def linalg_patches():
    import jax.scipy.linalg as jsl

    return [
        (jnp.linalg, "inv", inv_contract),
        (jnp.linalg, "det", det_contract),
        (jnp.linalg, "slogdet", slogdet_contract),
        (jnp.linalg, "solve", solve_contract),
        (jnp.linalg, "cholesky", cholesky_contract),
        (jsl, "inv", lambda a, *k, **kw: inv_contract(a)),
        (jsl, "det", lambda a, *k, **kw: det_contract(a)),
        (jsl, "solve", spsolve_contract),
        (jsl, "solve_triangular", solve_triangular_contract),
        (jsl, "cho_factor", cho_factor_contract),
        (jsl, "cho_solve", cho_solve_contract),
        (
            jsl,
            "cholesky",
            lambda a, lower=False, **k: cholesky_contract(a, upper=not lower),
        ),
    ]


def interp_patches():
    from jax_cosmo.scipy.interpolate import interp

    return [(None, interp, interp_contract)]
