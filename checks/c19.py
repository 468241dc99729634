"""C19 sparse block-diagonal matrices"""
import itertools

import jax
import jax_cosmo.sparse as sp

from .common import *


def dense(S):
    """Rows of scalars; 0 where the format has no element"""
    a, b, n = S.shape
    return [[S[i // n, j // n, i % n] if i % n == j % n else 0.0 for j in range(b * n)] for i in range(a * n)]


def arr(M):
    return jnp.stack([jnp.stack([jnp.asarray(x, dtype=float) for x in r]) for r in M])


def mul(A, B):
    """Row times column, term by term"""
    out = []
    for r in A:
        row = []
        for j in range(len(B[0])):
            s = 0.0
            for k in range(len(B)):
                if isinstance(r[k], float) and r[k] == 0.0 or isinstance(B[k][j], float) and B[k][j] == 0.0:
                    continue
                s = s + r[k] * B[k][j]
            row.append(s)
        out.append(row)
    return out


def rows(M):
    return [[M[i, j] for j in range(M.shape[1])] for i in range(M.shape[0])]


def leibniz(M):
    """Determinant by expansion along the first row, skipping the structural zeros"""
    if len(M) == 1:
        return M[0][0]
    s = 0.0
    for j, x in enumerate(M[0]):
        if isinstance(x, float) and x == 0.0:
            continue
        minor = [r[:j] + r[j + 1 :] for r in M[1:]]
        m = leibniz(minor)
        if isinstance(m, float) and m == 0.0:
            continue
        s = s + (-1) ** j * x * m
    return s


def block(S, q):
    return [[S[i, j, q] for j in range(S.shape[1])] for i in range(S.shape[0])]


def adjugate(M):
    n = len(M)
    if n == 1:
        return [[1.0]]
    return [
        [(-1) ** (i + j) * leibniz([r[:i] + r[i + 1 :] for q, r in enumerate(M) if q != j]) for j in range(n)] for i in range(n)
    ]


def nonsingular(S, eps=1e-3):
    return jnp.all(jnp.stack([jnp.abs(leibniz(block(S, q))) > eps for q in range(S.shape[2])]))


def obligations(tier):
    obs = []
    M = lambda *s: In(-3.0, 3.0, s)
    big = tier != "quick"

    def eq(name, inputs, impl, spec, claim, **kw):
        kw.setdefault("atol", 1e-9)
        obs.append(Ob(name, inputs, impl, spec, claim, **kw))

    tag = lambda s: "x".join(map(str, s))
    shapes = [(1, 1, 1), (1, 1, 3), (2, 1, 2), (1, 3, 2), (2, 2, 1), (2, 3, 2), (3, 2, 3)]
    if big:
        shapes += [(4, 4, 3), (3, 5, 4), (2, 2, 6)]
    def per_shape(s):
        eq("to_dense/" + tag(s), dict(S=M(*s)), lambda S: sp.to_dense(S), lambda S: arr(dense(S)), "block (i, j) is diagonal with S[i, j] on it")
        a, b, n = s
        eq(
            "dot/sparse-vec/" + tag(s),
            dict(S=M(*s), v=M(b * n)),
            lambda S, v: [sp.dot(S, v), sp.sparse_dot_vec(S, v)],
            lambda S, v: 2 * [jnp.stack([r[0] for r in mul(dense(S), [[v[i]] for i in range(b * n)])])],
            "sparse times vector",
        )
        eq(
            "dot/vec-sparse/" + tag(s),
            dict(S=M(*s), v=M(a * n)),
            lambda S, v: [sp.dot(v, S), sp.vec_dot_sparse(v, S)],
            lambda S, v: 2 * [jnp.stack(mul([[v[i] for i in range(a * n)]], dense(S))[0])],
            "vector times sparse",
        )
        for c in (1, 2, 3):
            eq(
                "dot/sparse-dense/%s,%d" % (tag(s), c),
                dict(S=M(*s), B=M(b * n, c)),
                lambda S, B: [sp.dot(S, B), sp.sparse_dot_dense(S, B)],
                lambda S, B: 2 * [arr(mul(dense(S), rows(B)))],
                "sparse times dense",
            )
            eq(
                "dot/dense-sparse/%s,%d" % (tag(s), c),
                dict(S=M(*s), B=M(c, a * n)),
                lambda S, B: [sp.dot(B, S), sp.dense_dot_sparse(B, S)],
                lambda S, B: 2 * [arr(mul(rows(B), dense(S)))],
                "dense times sparse",
            )
            eq(
                "dot/sparse-sparse/%s,%d" % (tag(s), c),
                dict(S=M(*s), B=M(b, c, n)),
                lambda S, B: [sp.to_dense(sp.dot(S, B)), sp.to_dense(sp.sparse_dot_sparse(S, B))],
                lambda S, B: 2 * [arr(mul(dense(S), dense(B)))],
                "sparse times sparse",
            )
        for c, d in ((1, 1), (2, 3)):
            eq(
                "dot/bilinear/%s,%d,%d" % (tag(s), c, d),
                dict(S=M(*s), A=M(c, a * n), B=M(b * n, d)),
                lambda S, A, B: [sp.dot(A, S, B), sp.dense_dot_sparse_dot_dense(A, S, B)],
                lambda S, A, B: 2 * [arr(mul(mul(rows(A), dense(S)), rows(B)))],
                "dense sparse dense bilinear form",
            )
    for s in shapes:
        per_shape(s)
    sq = [(1, 1, 1), (1, 1, 3), (2, 2, 1), (2, 2, 2), (2, 2, 3), (3, 3, 1), (3, 3, 2)]
    if big:
        sq += [(3, 3, 3), (2, 2, 5), (4, 4, 1), (4, 4, 2)]
    def per_square(s):
        ns = lambda S: nonsingular(S)
        small = lambda x: [x] if s[0] < 3 or s[2] == 1 else []

        def inverse(S):
            n = S.shape[2]
            o = []
            for q in range(n):
                B = block(S, q)
                d = leibniz(B)
                o.append(arr([[x / d for x in r] for r in adjugate(B)]))
            return jnp.stack(o, axis=2)

        eq("inv/" + tag(s), dict(S=M(*s)), lambda S: sp.inv(S), inverse, "the inverse is sparse, diagonal by diagonal", assume=ns, rtol=1e-5, atol=1e-7)
        eq(
            "inv/identity/" + tag(s),
            dict(S=M(*s)),
            lambda S: [sp.to_dense(sp.dot(sp.inv(S), S)), sp.to_dense(sp.dot(S, sp.inv(S)))],
            lambda S: 2 * [jnp.eye(s[0] * s[2])],
            "S^-1 S = S S^-1 = 1",
            assume=ns,
            rtol=1e-5,
            atol=1e-6,
        )
        eq(
            "det/" + tag(s),
            dict(S=M(*s)),
            lambda S: sp.det(S),
            lambda S: jnp.asarray(leibniz(dense(S))),
            "determinant of the dense matrix (expanded along its rows), sign included",
            assume=ns,
            rtol=1e-5,
            atol=1e-7,
        )
        eq(
            "slogdet/" + tag(s),
            dict(S=M(*s)),
            lambda S: (lambda r: [r[0] * jnp.exp(r[1])] + small(r[0] ** 2))(sp.slogdet(S)),
            lambda S: [jnp.asarray(leibniz(dense(S)))] + small(jnp.ones(())),
            "sign (+1 or -1) times exp(logdet) is the determinant of the dense matrix",
            assume=ns,
            rtol=1e-5,
            atol=1e-6,
        )
        eq(
            "det/inverse/" + tag(s),
            dict(S=M(*s)),
            lambda S: sp.det(sp.inv(S)) * sp.det(S),
            lambda S: jnp.ones(()),
            "det(S^-1) det(S) = 1",
            assume=ns,
            rtol=1e-5,
        )
    for s in sq:
        per_square(s)
    # a matrix whose trailing blocks are singular while itself is not
    eq(
        "det/zero-block",
        dict(x=In(0.2, 3), y=In(-3, -0.2), z=M()),
        lambda x, y, z: (lambda S: [sp.det(S)] + list(sp.slogdet(S)) + [sp.inv(S)])(jnp.stack([jnp.stack([z, x]), jnp.stack([y, 0 * x])])[:, :, None]),
        lambda x, y, z: [-x * y, jnp.sign(-x * y), jnp.log(jnp.abs(x * y)), jnp.stack([jnp.stack([0 * x, 1 / y]), jnp.stack([1 / x, -z / (x * y)])])[:, :, None]],
        "also when the diagonal blocks are singular",
        rtol=1e-6,
    )
    eq(
        "det/zero-block-of-3",
        dict(x=In(0.2, 3), y=In(-3, -0.2), w=In(0.2, 3), z=M()),
        lambda x, y, z, w: (lambda o: sp.det(jnp.stack([jnp.stack([z, x, o]), jnp.stack([o, o, w]), jnp.stack([y, o, o])])[:, :, None]))(0 * x),
        lambda x, y, z, w: x * y * w,
        "three by three blocks, all trailing ones singular",
        rtol=1e-6,
    )
    eq(
        "dot/matches-likelihood",
        dict(S=M(2, 2, 2), r=M(4)),
        lambda S, r: sp.dot(r.reshape(1, -1), sp.inv(S), r.reshape(-1, 1)),
        lambda S, r: (
            lambda D: arr([[sum(r[i] * D[i][j] * r[j] for i in range(4) for j in range(4) if not isinstance(D[i][j], float))]])
        )(dense(jnp.stack([arr([[x / leibniz(block(S, q)) for x in w] for w in adjugate(block(S, q))]) for q in range(2)], axis=2))),
        "r^T S^-1 r",
        assume=lambda S, r: nonsingular(S),
        rtol=1e-5,
        atol=1e-7,
    )
    eq(
        "is_sparse",
        dict(S=M(2, 2, 2)),
        lambda S: jnp.asarray([float(bool(sp.is_sparse(x))) for x in (S, S[0], S[0, 0], S[None])] + [float(bool(sp.is_sparse([[[1.0]]])))]),
        lambda S: jnp.asarray([1.0, 0.0, 0.0, 0.0, 1.0]),
        "sparse matrices are those of three dimensions",
    )
    eq("check_sparse", dict(S=M(2, 3, 2)), lambda S: sp.check_sparse(S), lambda S: S, "a valid sparse matrix is passed through")
    for n, f, sh in (
        ("inv/not-square", lambda S: sp.inv(S), (2, 3, 2)),
        ("det/not-square", lambda S: sp.det(S), (3, 2, 2)),
        ("slogdet/not-square", lambda S: sp.slogdet(S)[1], (1, 2, 4)),
        ("check/2d", lambda S: sp.check_sparse(S[0]), (2, 2, 2)),
        ("check/4d", lambda S: sp.check_sparse(S[None]), (2, 2, 2)),
        ("to_dense/2d", lambda S: sp.to_dense(S[0]), (2, 2, 2)),
        ("inv/2d", lambda S: sp.inv(S[0]), (2, 2, 2)),
        ("dot/vec-too-long", lambda S: sp.dot(S, jnp.ones(5)), (2, 2, 2)),
        ("dot/vec-too-short", lambda S: sp.dot(jnp.ones(3), S), (2, 2, 2)),
        ("dot/dense-rows", lambda S: sp.dot(S, jnp.ones((5, 4))), (2, 2, 2)),
        ("dot/dense-columns", lambda S: sp.dot(jnp.ones((4, 5)), S), (2, 2, 2)),
        ("dot/sparse-blocks", lambda S: sp.dot(S, S), (2, 3, 2)),
        ("dot/scalar", lambda S: sp.dot(S, 1.0), (2, 2, 2)),
        ("dot/scalar-left", lambda S: sp.dot(1.0, S), (2, 2, 2)),
        ("dot/4d", lambda S: sp.dot(S, S[None]), (2, 2, 2)),
        ("dot/one", lambda S: sp.dot(S), (2, 2, 2)),
        ("dot/four", lambda S: sp.dot(S, S, S, S), (2, 2, 2)),
        ("dot/bilinear-left", lambda S: sp.dot(jnp.ones((2, 3)), S, jnp.ones((4, 2))), (2, 2, 2)),
        ("dot/bilinear-right", lambda S: sp.dot(jnp.ones((2, 4)), S, jnp.ones((6, 2))), (2, 2, 2)),
        ("dot/bilinear-dense", lambda S: sp.dot(S[0], S[1], S[0]), (2, 2, 2)),
        ("dot/bilinear-vec", lambda S: sp.dot(jnp.ones(4), S, jnp.ones((4, 1))), (2, 2, 2)),
    ):
        obs.append(Ob("error/" + n, dict(S=M(*sh)), f, None, "ValueError", kind="raises", exc=ValueError))
    return obs
