"""C20 Gaussian likelihood"""
import jax
from jax_cosmo.likelihood import gaussian_log_likelihood as ll

from .c19 import adjugate, arr, block, dense, leibniz, nonsingular
from .common import *


def full(n):
    """Inputs of a symmetric positive definite matrix of size n: C = L L^T"""
    return dict(l=In(-1.5, 1.5, (n * (n - 1) // 2,)), g=In(0.3, 2.0, (n,)))


def factor(d, n):
    it = iter(range(n * n))
    return [[(d["l"][next(it)] if j < i else d["g"][i]) if j <= i else 0.0 for j in range(n)] for i in range(n)]


def cov(d, n):
    L = factor(d, n)
    return arr([[sum(L[i][k] * L[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)])


def entries(n):
    """A symmetric positive definite matrix given by its entries"""
    return dict(l=In(-1.0, 1.0, (n * (n - 1) // 2,)), g=In(0.5, 4.0, (n,)))


def symmetric(d, n):
    it = iter(range(n * n))
    up = {}
    for i in range(n):
        for j in range(i):
            up[i, j] = up[j, i] = d["l"][next(it)]
    return arr([[d["g"][i] if i == j else up[i, j] for j in range(n)] for i in range(n)])


def positive(d, n):
    M = rowsof(symmetric(d, n))
    return jnp.all(jnp.stack([leibniz([r[:k] for r in M[:k]]) > 0.1 for k in range(1, n + 1)]))


def rowsof(C):
    return [[C[i, j] for j in range(C.shape[1])] for i in range(C.shape[0])]


def chi2(r, C):
    """r^T C^-1 r by Cramer's rule"""
    M = rowsof(C)
    n = len(M)
    A = adjugate(M)
    return sum(r[i] * A[i][j] * r[j] for i in range(n) for j in range(n)) / leibniz(M)


def chi2_factor(r, L):
    """|L^-1 r|^2 by forward substitution"""
    y = []
    for i in range(len(L)):
        y.append((r[i] - sum((L[i][k] * y[k] for k in range(i)), 0.0)) / L[i][i])
    return sum(x**2 for x in y)


def logdet_factor(L):
    return 2.0 * sum(jnp.log(L[i][i]) for i in range(len(L)))


def sparse_cov(d, nb, nd):
    """Symmetric positive definite sparse matrix: one factor per diagonal"""
    blocks = []
    m = nb * (nb - 1) // 2
    for q in range(nd):
        blocks.append(cov(dict(l=d["l"][q * m : (q + 1) * m], g=d["g"][q * nb : (q + 1) * nb]), nb))
    return jnp.stack(blocks, axis=2)


def sparse_in(nb, nd):
    return dict(l=In(-1.5, 1.5, (nd * nb * (nb - 1) // 2,)), g=In(0.3, 2.0, (nd * nb,)))


def obligations(tier):
    obs = []
    big = tier != "quick"
    V = lambda n: In(-3.0, 3.0, (n,))

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-7)
        kw.setdefault("rtol", 1e-6)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def dense_case(n):
        d0 = dict(full(n), data=V(n), mu=V(n))
        for method in ("inverse", "cholesky"):
            for logdet in (True, False):
                eq(
                    "%s/%s/%d" % (method, "logdet" if logdet else "chi2", n),
                    d0,
                    lambda **d: ll(d["data"], d["mu"], cov(d, n), include_logdet=logdet, inverse_method=method),
                    lambda **d: -0.5
                    * (chi2_factor(d["mu"] - d["data"], factor(d, n)) + (logdet_factor(factor(d, n)) if logdet else 0.0)),
                    "-1/2 (r^T C^-1 r%s), for any covariance C = L L^T of size %d" % (" + log det C" if logdet else "", n),
                )
                if n <= 2 or method == "inverse":
                    eq(
                        "entries/%s/%s/%d" % (method, "logdet" if logdet else "chi2", n),
                        dict(entries(n), data=V(n), mu=V(n)),
                        lambda **d: ll(d["data"], d["mu"], symmetric(d, n), include_logdet=logdet, inverse_method=method),
                        lambda **d: -0.5
                        * (chi2(d["mu"] - d["data"], symmetric(d, n)) + (jnp.log(leibniz(rowsof(symmetric(d, n)))) if logdet else 0.0)),
                        "the same by Cramer's rule, on positive definite matrices given by their entries",
                        assume=lambda data, mu, **d: positive(d, n),
                    )
        eq(
            "agree/%d" % n,
            d0,
            lambda **d: [ll(d["data"], d["mu"], cov(d, n)), ll(d["data"], d["mu"], cov(d, n), False)],
            lambda **d: [
                ll(d["data"], d["mu"], cov(d, n), inverse_method="cholesky"),
                ll(d["data"], d["mu"], cov(d, n), False, "cholesky"),
            ],
            "the methods agree",
        )
        eq(
            "normalised/%d" % n,
            dict(full(n), x=V(n), y=V(n)),
            lambda **d: ll(d["x"], d["y"], cov(d, n)) - ll(d["x"], d["y"], cov(d, n), include_logdet=False),
            lambda **d: -jnp.log(leibniz(rowsof(cov(d, n)))) / 2.0,
            "the determinant enters as -1/2 log det C, independent of data and mean",
        )
        eq(
            "symmetric/%d" % n,
            d0,
            lambda **d: ll(d["data"], d["mu"], cov(d, n)),
            lambda **d: ll(d["mu"], d["data"], cov(d, n)),
            "data and mean can be exchanged",
        )
        eq(
            "maximum/%d" % n,
            d0,
            lambda **d: [ll(d["mu"], d["mu"], cov(d, n), False), ll(d["mu"], d["mu"], cov(d, n))],
            lambda **d: [jnp.zeros(()), -jnp.log(leibniz(rowsof(cov(d, n)))) / 2.0],
            "without residuals only the determinant is left",
        )
        obs.append(
            Ob(
                "peak/%d" % n,
                d0,
                lambda **d: [-ll(d["data"], d["mu"], cov(d, n), False), -ll(d["data"], d["mu"], cov(d, n), False, "cholesky")],
                None,
                "the likelihood is largest without residuals",
                kind="nonneg",
                atol=1e-9,
            )
        )
        eq(
            "scale/%d" % n,
            dict(d0, c=In(0.2, 5.0)),
            lambda **d: [ll(d["data"], d["mu"], d["c"] * cov(d, n)), ll(d["c"] * d["data"], d["c"] * d["mu"], cov(d, n), False)],
            lambda **d: [
                -0.5 * (chi2_factor(d["mu"] - d["data"], factor(d, n)) / d["c"] + jnp.log(leibniz(rowsof(d["c"] * cov(d, n))))),
                -0.5 * d["c"] ** 2 * chi2_factor(d["mu"] - d["data"], factor(d, n)),
            ],
            "scaling of covariance and of residuals",
        )

    for n in (1, 2, 3) if not big else (1, 2, 3, 4):
        dense_case(n)

    def sparse_case(nb, nd):
        N = nb * nd
        d0 = dict(sparse_in(nb, nd), data=V(N), mu=V(N))
        t = "%dx%d" % (nb, nd)
        S = lambda d: sparse_cov(d, nb, nd)

        def ref(d, logdet):
            r = d["mu"] - d["data"]
            m = nb * (nb - 1) // 2
            s = 0.0
            for q in range(nd):
                L = factor(dict(l=d["l"][q * m : (q + 1) * m], g=d["g"][q * nb : (q + 1) * nb]), nb)
                s = s + chi2_factor([r[i * nd + q] for i in range(nb)], L)
                if logdet:
                    s = s + logdet_factor(L)
            return -0.5 * s

        for logdet in (True, False):
            for method in ("inverse", "cholesky", "whatever"):
                eq(
                    "sparse/%s/%s/%s" % ("logdet" if logdet else "chi2", t, method),
                    d0,
                    lambda **d: ll(d["data"], d["mu"], S(d), logdet, method),
                    lambda **d: ref(d, logdet),
                    "sparse covariances, one dense factor per diagonal; the method is ignored",
                )
            if N <= 4:
                eq(
                    "sparse-dense/%s/%s" % ("logdet" if logdet else "chi2", t),
                    d0,
                    lambda **d: ll(d["data"], d["mu"], S(d), include_logdet=logdet),
                    lambda **d: ll(d["data"], d["mu"], arr(dense(S(d))), include_logdet=logdet),
                    "a sparse covariance and its dense equivalent give the same likelihood",
                )

    for nb, nd in [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1)] + ([(3, 2), (2, 4), (4, 1)] if big else [(2, 3)]):
        sparse_case(nb, nd)
    for m in ("", "svd", None, "Cholesky"):
        obs.append(
            Ob(
                "error/%s" % m,
                dict(full(2), data=V(2), mu=V(2)),
                lambda m=m, **d: ll(d["data"], d["mu"], cov(d, 2), inverse_method=m),
                None,
                "unknown methods are rejected",
                kind="raises",
                exc=NotImplementedError,
            )
        )
    return obs
