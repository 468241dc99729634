"""C18 Gaussian covariance"""
from jax_cosmo.angular_cl import gaussian_cl_covariance, gaussian_cl_covariance_and_mean

from .c17 import *
from .c19 import arr


def gradient(x):
    """Spacing of the multipoles: central differences, one sided at the ends"""
    n = len(x)
    return [x[1] - x[0] if i == 0 else (x[i] - x[i - 1] if i == n - 1 else (x[i + 1] - x[i - 1]) / 2.0) for i in range(n)]


def pairs(N):
    return [(i, j) for i in range(N) for j in range(i, N)]


def wick(N, ell, C, f_sky):
    """blocks[p][q][l]; C(i, j, l) symmetric in i, j"""
    g = gradient(ell)
    out = []
    for i, j in pairs(N):
        row = []
        for m, n in pairs(N):
            row.append(
                [(C(i, m, l) * C(j, n, l) + C(i, n, l) * C(j, m, l)) / ((2.0 * ell[l] + 1.0) * g[l] * f_sky) for l in range(len(ell))]
            )
        out.append(row)
    return out


def spectra(N, cl):
    ix = {}
    for q, (i, j) in enumerate(pairs(N)):
        ix[i, j] = ix[j, i] = q
    return lambda i, j, l: cl[ix[i, j], l]


def as_sparse(W):
    return jnp.stack([jnp.stack([jnp.stack(c) for c in r]) for r in W])


def as_dense(W):
    n, L = len(W), len(W[0][0])
    return arr([[W[p // L][q // L][p % L] if p % L == q % L else 0.0 for q in range(n * L)] for p in range(n * L)])


def obligations(tier):
    obs = []
    big = tier != "quick"
    ELL = lambda n: dict(l0=In(2.0, 100.0), dl=In(0.5, 200.0, (n - 1,)))

    def ells(d):
        r = [d["l0"]]
        for i in range(d["dl"].shape[0]):
            r.append(r[-1] + d["dl"][i])
        return r

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-12)
        kw.setdefault("rtol", 1e-6)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    def pr_(sizes):
        o, r = 0, []
        for n in sizes:
            r.append(any_probe([1.0 + 0.1 * (o + i) for i in range(n)], zmax=2.0))
            o += n
        return r

    def case(sizes, ne):
        N = sum(sizes)
        nc = N * (N + 1) // 2
        t = "%s/%d" % ("+".join(map(str, sizes)), ne)
        I = dict(ELL(ne), s=In(-3.0, 3.0, (nc, ne)), n=In(0.0, 2.0, (nc, ne)), f=In(0.05, 1.0))
        W = lambda d: wick(N, ells(d), spectra(N, d["s"] + d["n"]), d["f"])
        eq(
            "sparse/" + t,
            I,
            lambda **d: gaussian_cl_covariance(jnp.stack(ells(d)), pr_(sizes), d["s"], d["n"], f_sky=d["f"], sparse=True),
            lambda **d: as_sparse(W(d)),
            "Wick's formula, block (i,j),(m,n)",
        )
        eq(
            "dense/" + t,
            I,
            lambda **d: gaussian_cl_covariance(jnp.stack(ells(d)), pr_(sizes), d["s"], d["n"], f_sky=d["f"], sparse=False),
            lambda **d: as_dense(W(d)),
            "the same as a dense matrix, ordered as the flattened spectra",
        )
        if N <= 3:
            eq(
                "symmetric/" + t,
                I,
                lambda **d: gaussian_cl_covariance(jnp.stack(ells(d)), pr_(sizes), d["s"], d["n"], d["f"], sparse=False),
                lambda **d: gaussian_cl_covariance(jnp.stack(ells(d)), pr_(sizes), d["s"], d["n"], d["f"], sparse=False).T,
                "symmetric",
            )
        if N <= 2 and ne <= 2:
            m = N * (N - 1) // 2

            def C(d, l):
                L = [[d["g"][l, i] if i == j else (d["l"][l, i * (i - 1) // 2 + j] if j < i else 0.0) for j in range(N)] for i in range(N)]
                return L, [[sum(L[i][k] * L[j][k] for k in range(min(i, j) + 1)) for j in range(N)] for i in range(N)]

            def cl(d):
                return jnp.stack([jnp.stack([C(d, l)[1][i][j] for l in range(ne)]) for i, j in pairs(N)])

            def square(d):
                s = 0.0
                e = ells(d)
                g = gradient(e)
                for l in range(ne):
                    L = C(d, l)[0]
                    V = {}
                    for q, (i, j) in enumerate(pairs(N)):
                        V[i, j] = V[j, i] = d["v"][q * ne + l] * (1.0 if i == j else 0.5)
                    x = 0.0
                    for a in range(N):
                        for b in range(N):
                            x = x + sum(L[i][a] * V[i, j] * L[j][b] for i in range(N) for j in range(N)) ** 2
                    s = s + 2.0 * x / ((2.0 * e[l] + 1.0) * g[l] * d["f"])
                return s

            IP = dict(ELL(ne), g=In(0.1, 2.0, (ne, N)), l=In(-1.0, 1.0, (ne, m)), v=In(-2.0, 2.0, (nc * ne,)), f=In(0.05, 1.0))
            eq(
                "positive/" + t,
                IP,
                lambda **d: d["v"] @ gaussian_cl_covariance(jnp.stack(ells(d)), pr_(sizes), cl(d), 0.0 * cl(d), d["f"], sparse=False) @ d["v"],
                lambda **d: square(d),
                "v^T Cov v is a sum of squares over positive numbers whenever the spectra are positive definite",
            )

    for sizes, ne in [((1,), 2), ((1,), 3), ((2,), 2), ((1, 1), 2), ((1, 1), 3), ((1, 2), 2), ((3,), 2), ((1, 1, 1), 3)] + (
        [((2, 2), 2), ((4,), 3), ((2,), 5)] if big else []
    ):
        case(sizes, ne)
    eq(
        "default",
        dict(ELL(2), s=In(-3.0, 3.0, (1, 2)), n=In(0.0, 2.0, (1, 2))),
        lambda **d: gaussian_cl_covariance(jnp.stack(ells(d)), pr_((1,)), d["s"], d["n"]),
        lambda **d: as_sparse(wick(1, ells(d), spectra(1, d["s"] + d["n"]), 0.25)),
        "a quarter of the sky, sparse, by default",
    )
    # with the spectra computed inside
    FIX = params({})

    def both(sizes, ne):
        N = sum(sizes)

        def mean(d):
            e = jnp.stack(ells(d))
            return e, limber(FIX, lambda z, l: jnp.stack([KER(z, l, d["p"][i]) for i in range(N)]), 2.0, e, PK)

        def anyp(d):
            r, o = [], 0
            for n in sizes:
                r.append(any_probe([d["p"][o + i] for i in range(n)], zmax=2.0))
                o += n
            return r

        def ref(d, f, sparse):
            e, c = mean(d)
            noise = jnp.stack([(d["p"][i] ** 2 if i == j else 0.0) * jnp.ones(ne) for i, j in pairs(N)])
            W = wick(N, ells(d), spectra(N, c + noise), f)
            return [c.ravel(), as_sparse(W) if sparse else as_dense(W)]

        I = dict(ELL(ne), p=In(0.5, 2.0, (N,)), f=In(0.05, 1.0))
        t = "%s/%d" % ("+".join(map(str, sizes)), ne)
        for sparse in (True, False):
            eq(
                "with-mean/%s/%s" % ("sparse" if sparse else "dense", t),
                I,
                lambda **d: list(
                    gaussian_cl_covariance_and_mean(cosmology({}), jnp.stack(ells(d)), anyp(d), nonlinear_fn=pk_any, f_sky=d["f"], sparse=sparse)
                ),
                lambda **d: ref(d, d["f"], sparse),
                "flattened signal spectra and the covariance of signal plus noise",
                eager=1,
            )
        eq(
            "with-mean/default/" + t,
            {k: v for k, v in I.items() if k != "f"},
            lambda **d: list(gaussian_cl_covariance_and_mean(cosmology({}), jnp.stack(ells(d)), anyp(d), nonlinear_fn=pk_any)),
            lambda **d: ref(d, 0.25, False),
            "a quarter of the sky, dense, by default",
            eager=1,
        )
        if N == 1:
            eq(
                "with-mean/transfer/" + t,
                dict(I),
                lambda **d: list(
                    gaussian_cl_covariance_and_mean(
                        cosmology({}), jnp.stack(ells(d)), anyp(d), transfer_fn=tk_any, nonlinear_fn=lambda c, k, a, transfer_fn: PK(k, a) * transfer_fn(c, k) / TK(k, 0.8), f_sky=d["f"]
                    )
                ),
                lambda **d: ref(d, d["f"], False),
                "the transfer function is passed on",
                eager=1,
            )

    both((1,), 2)
    both((2,), 2)
    if big:
        both((1, 1), 3)
        both((1, 2), 2)
    return obs
