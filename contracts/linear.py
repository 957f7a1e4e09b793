"""Contracts of jax_cosmo.sparse and likelihood (C16 - C18)."""
import itertools

from .common import *
import jax_cosmo.likelihood as lk
import jax_cosmo.sparse as sparse

# Indices (i, p) stand for i n + p: reshaping is that bijection.


def D4(S):
    """Elements (i, p, j, q) of the dense matrix of S[i, j, p]."""
    p = jnp.arange(S.shape[2])
    return jnp.where(p[:, None, None] == p[None, None, :], S.transpose((0, 2, 1))[:, :, :, None], 0.0)


def is_shape(x, *shape):
    assert x.shape == tuple(shape), "shape %s instead of %s" % (x.shape, tuple(shape))
    return x


def S3(name, *shape):
    return Sym(name, shape, sample=ranged(-1.5, 1.5))


def sp_ob(prop, name, functions, syms, real, spec, **kw):
    dims = kw.pop("dims", None) or {d: 1 for x in syms for d in x.shape if isinstance(d, str)}
    return Ob(prop + "." + name, functions, syms, real, spec, dims=dims, sizes={d: 4 for d in dims}, abs_=1e-9, rel=1e-9, samples=3, **kw)


def C16():
    obs = []
    S, R = S3("S", "a", "b", "n"), S3("R", "b", "c", "n")
    v, u = S3("v", "b", "n"), S3("u", "a", "n")
    M, W = S3("M", "b", "n", "m"), S3("W", "m", "a", "n")
    Z = S3("Z", "b", "n", "k")

    obs.append(sp_ob("C16", "to_dense", ["to_dense", "check_sparse"], [S],
                     lambda s: is_shape(sparse.to_dense(s), s.shape[0] * s.shape[2], s.shape[1] * s.shape[2]).reshape(
                         (s.shape[0], s.shape[2], s.shape[1], s.shape[2])), D4))
    obs.append(sp_ob("C16", "check_sparse", ["check_sparse"], [S], sparse.check_sparse, lambda s: s))

    def named(*names):
        return [(nm, f) for nm, f in [("dot", sparse.dot)] + [(x, getattr(sparse, x, None)) for x in names] if f is not None]

    def flat(x, *shape):
        return x.reshape(shape)

    for nm, f in named("sparse_dot_vec"):
        obs.append(sp_ob("C16", nm + ".sparse_vec", ["dot", "sparse_dot_vec"], [S, v],
                         lambda s, v, f=f: is_shape(f(s, v.reshape((-1,))), s.shape[0] * s.shape[2]).reshape((s.shape[0], s.shape[2])),
                         lambda s, v: jnp.einsum("ipjq,jq->ip", D4(s), v)))
    for nm, f in named("vec_dot_sparse"):
        obs.append(sp_ob("C16", nm + ".vec_sparse", ["dot", "vec_dot_sparse"], [u, S],
                         lambda u, s, f=f: is_shape(f(u.reshape((-1,)), s), s.shape[1] * s.shape[2]).reshape((s.shape[1], s.shape[2])),
                         lambda u, s: jnp.einsum("ip,ipjq->jq", u, D4(s))))
    for nm, f in named("sparse_dot_dense"):
        obs.append(sp_ob("C16", nm + ".sparse_dense", ["dot", "sparse_dot_dense", "sparse_dot_vec"], [S, M],
                         lambda s, m, f=f: is_shape(f(s, m.reshape((-1, m.shape[2]))), s.shape[0] * s.shape[2], m.shape[2]).reshape(
                             (s.shape[0], s.shape[2], m.shape[2])),
                         lambda s, m: jnp.einsum("ipjq,jqm->ipm", D4(s), m)))
    for nm, f in named("dense_dot_sparse"):
        obs.append(sp_ob("C16", nm + ".dense_sparse", ["dot", "dense_dot_sparse", "vec_dot_sparse"], [W, S],
                         lambda w, s, f=f: is_shape(f(w.reshape((w.shape[0], -1)), s), w.shape[0], s.shape[1] * s.shape[2]).reshape(
                             (w.shape[0], s.shape[1], s.shape[2])),
                         lambda w, s: jnp.einsum("mip,ipjq->mjq", w, D4(s))))
    for nm, f in named("sparse_dot_sparse"):
        obs.append(sp_ob("C16", nm + ".sparse_sparse", ["dot", "sparse_dot_sparse"], [S, R],
                         lambda s, r, f=f: D4(is_shape(f(s, r), s.shape[0], r.shape[1], s.shape[2])),
                         lambda s, r: jnp.einsum("ipjq,jqkr->ipkr", D4(s), D4(r))))
    for nm, f in named("dense_dot_sparse_dot_dense"):
        obs.append(sp_ob("C16", nm + ".dense_sparse_dense", ["dot", "dense_dot_sparse_dot_dense"], [W, S, Z],
                         lambda w, s, z, f=f: is_shape(f(w.reshape((w.shape[0], -1)), s, z.reshape((-1, z.shape[2]))), w.shape[0], z.shape[2]),
                         lambda w, s, z: jnp.einsum("mip,ipjq,jqk->mk", w, D4(s), z)))
    obs.append(Ob("C16.is_sparse", ["is_sparse"], [], None, None, kind="check", check=which_sparse, bounded="arrays of 0 to 5 dimensions"))
    obs.append(Ob("C16.dot.shapes", ["dot", "check_sparse"], [], None, None, kind="check", check=shapes_accepted, timeout=500, cost=50,
                  bounded="every pair of shapes of 0 to 4 dimensions with sizes 1 to 3 (dense sizes 1 to 9), every triple of a smaller set"))
    obs.append(rejects("C16", "rejects", ["check_sparse", "to_dense", "dot"], rejected()))
    return obs


def which_sparse(seed, tier):
    for nd in range(6):
        x = jnp.ones((2,) * nd)
        for y in (x, onp.asarray(x), x.tolist()):
            r = sparse.is_sparse(y)
            if bool(r) != (nd == 3):
                return {"runs": nd, "violation": {"dimensions": nd, "difference": "is_sparse returns %s" % r}}
    return {"runs": 18}


def small_shapes(tier):
    one = [(k,) for k in (1, 2, 3, 4, 6, 9)]
    two = [x for x in itertools.product((1, 2, 3, 4, 6, 9), repeat=2)] if tier == "thorough" else [
        x for x in itertools.product((1, 2, 4, 6), repeat=2)]
    return [()] + one + two + list(itertools.product((1, 2, 3), repeat=3)) + [(1, 1, 1, 1), (2, 1, 2, 1), (2, 2, 2, 2)]


def product_shape(A, B):
    """Shape of the product of arguments of shapes A and B; None when they do not match."""
    if 3 not in (len(A), len(B)) or not {len(A), len(B)} <= {1, 2, 3}:
        return None
    if len(A) == len(B) == 3:
        # the blocks have to match too
        return (A[0], B[1], A[2]) if A[1] == B[0] and A[2] == B[2] else None
    cols = A[1] * A[2] if len(A) == 3 else A[-1]
    rows = B[0] * B[2] if len(B) == 3 else B[0]
    if cols != rows:
        return None
    left = (A[0] * A[2],) if len(A) == 3 else A[:-1]
    right = (B[1] * B[2],) if len(B) == 3 else B[1:]
    return left + right


def attempt(*shapes):
    try:
        return jax.eval_shape(sparse.dot, *[jax.ShapeDtypeStruct(s, jnp.float64) for s in shapes]).shape
    except Exception as e:
        return "raises %s: %s" % (type(e).__name__, str(e)[:200])


def shapes_accepted(seed, tier):
    n = 0
    allowed = (ValueError, TypeError)
    shapes = small_shapes(tier)
    for A in shapes:
        for B in shapes:
            if 3 not in (len(A), len(B)):
                continue
            n += 1
            want, got = product_shape(A, B), attempt(A, B)
            if want is None and not isinstance(got, str) or want is not None and got != want:
                return {"runs": n, "violation": {"shapes": [A, B], "difference": "%s instead of %s" % (got, want or "a rejection")}}
    cube = [x for x in itertools.product((1, 2), repeat=3)]
    mats = [x for x in itertools.product((1, 2, 4), repeat=2)]
    few = [(), (1,), (4,), (2, 2, 2), (1, 1, 1), (1, 1, 1, 1)] + mats
    for A in few:
        for B in cube + [(2, 2), (4,)]:
            for C in few:
                n += 1
                want = None
                if (len(A), len(B), len(C)) == (2, 3, 2) and A[1] == B[0] * B[2] and C[0] == B[1] * B[2]:
                    want = (A[0], C[1])
                got = attempt(A, B, C)
                if want is None and not isinstance(got, str) or want is not None and got != want:
                    return {"runs": n, "violation": {"shapes": [A, B, C], "difference": "%s instead of %s" % (got, want or "a rejection")}}
    return {"runs": n}


def rejected():
    o = jnp.ones
    cases = []
    for sh in ((), (3,), (2, 2), (2, 2, 2, 2)):
        cases.append(("check_sparse%s" % (sh,), lambda sh=sh: sparse.check_sparse(o(sh)), ValueError))
        cases.append(("to_dense%s" % (sh,), lambda sh=sh: sparse.to_dense(o(sh)), ValueError))
    for sh in ((1, 2, 3), (2, 1, 3)):
        cases.append(("check_sparse%s square" % (sh,), lambda sh=sh: sparse.check_sparse(o(sh), square=True), ValueError))
    for n in (0, 1, 4):
        cases.append(("dot of %d" % n, lambda n=n: sparse.dot(*[o((2, 2, 2))] * n), (ValueError, TypeError)))
    for A, B in (((2, 2, 3), (5,)), ((2, 2, 3), (3, 2)), ((5,), (2, 2, 3)), ((2, 3), (2, 2, 3)), ((2, 2, 3), ()), ((), (2, 2, 3)),
                 ((2, 2, 3), (2, 2, 2, 2)), ((2, 2, 3), (3, 2, 3)), ((2, 3, 2), (2, 2, 3)), ((2, 2, 3), (1,)), ((1,), (2, 2, 3))):
        cases.append(("dot %s %s" % (A, B), lambda A=A, B=B: sparse.dot(o(A), o(B)), (ValueError, TypeError)))
    return cases


# --- inverse and determinant (C17) ----------------------------------------------------------------


def mats(name="S", n="n", a="a"):
    """Matrices with well separated eigenvalues, determinants of both signs."""
    def sample(rng, s):
        x = rng.uniform(-1, 1, size=(s[2], s[0], s[0]))
        q = onp.linalg.qr(x)[0] * rng.uniform(0.5, 2.0, size=(s[2], 1, s[0]))
        return q.transpose((1, 2, 0))
    return Sym(name, (a, a, n), sample=sample)


def slices(S):
    """The matrices of the elements at each position."""
    return S.transpose((2, 0, 1))


def np_dense(S):
    a, b, n = S.shape
    M = jnp.zeros((a * n, b * n))
    for i in range(a):
        for j in range(b):
            for p in range(n):
                M = M.at[i * n + p, j * n + p].set(S[i, j, p])
    return M


def inv_spec(S):
    if SP.symbolic():
        return TR.inv_contract(slices(S)).transpose((1, 2, 0))
    a, _, n = S.shape
    X = jnp.linalg.inv(np_dense(S)).reshape((a, n, a, n))
    return jnp.einsum("ipjp->ijp", X)


def slogdet_spec(S):
    if SP.symbolic():
        s, l = TR.slogdet_contract(slices(S))
        return jnp.prod(s), jnp.sum(l)
    s, l = jnp.linalg.slogdet(np_dense(S))
    return s, l


def det_spec(S):
    s, l = slogdet_spec(S)
    return s * jnp.exp(l)


def C17():
    k = dict(linalg=True, abs_=1e-8)
    S = mats()
    T = Sym("S", ("a", "a", "n"), sample=degenerate)
    mk = lambda name, f, real, spec, sym=S: Ob("C17." + name, f, [sym], real, spec, dims={"a": 1, "n": 1}, sizes={"a": 4, "n": 4},
                                           linalg=True, abs_=1e-8, rel=1e-7, samples=4, assumes=[LINALG])
    obs = [
        mk("inv", ["inv"], sparse.inv, inv_spec),
        mk("slogdet", ["slogdet"], lambda s: tuple(sparse.slogdet(s)), slogdet_spec),
        mk("det", ["det"], sparse.det, det_spec),
        mk("inv.singular_blocks", ["inv"], sparse.inv, inv_spec, T),
        mk("slogdet.singular_blocks", ["slogdet"], lambda s: tuple(sparse.slogdet(s)), slogdet_spec, T),
        magnitudes("C17"),
        lean_ob("C17", "lemma.dense", "Sparse.lean", ["dense_apply", "number", "det_dense", "sign_dense", "logabs_dense", "inv_dense"]),
        rejects("C17", "rejects", ["inv", "slogdet", "det", "check_sparse"],
                [("%s%s" % (f, sh), lambda f=f, sh=sh: getattr(sparse, f)(jnp.ones(sh)), ValueError)
                 for f in ("inv", "slogdet", "det")
                 for sh in ((), (4,), (3, 3), (2, 3, 4), (3, 2, 4), (1, 2, 1), (4, 1, 3), (2, 2, 2, 2))]),
    ]
    return obs


LINALG = "numpy.linalg.inv and slogdet of a stack of matrices are the inverse, the sign of the determinant and the logarithm of its absolute value of each matrix"


def degenerate(rng, s):
    """Invertible although some blocks are singular: permutations times scales."""
    a, _, n = s
    out = onp.zeros(s)
    for p in range(n):
        out[onp.arange(a), rng.permutation(a), p] = rng.uniform(0.5, 2.0, size=a) * rng.choice([-1, 1], size=a)
    return out


# --- likelihood (C18) -----------------------------------------------------------------------------


def C18():
    N = "n"
    y, mu = S3("data", N), S3("mu", N)
    A = Sym("A", (N, N), sample=posdef)

    def sym(a):
        return 0.5 * (a + a.T)

    def quad(r, C):
        if SP.symbolic():
            return jnp.sum(r * jnp.sum(TR.inv_contract(C) * r[None, :], axis=1))
        return jnp.dot(r, jnp.linalg.solve(C, r))

    def logdet(C):
        if SP.symbolic():
            return TR.slogdet_contract(C)[1]
        return 2.0 * jnp.sum(jnp.log(jnp.diag(jnp.linalg.cholesky(C))))

    def spec(det):
        def f(y, mu, a):
            C, r = sym(a), mu - y
            return -0.5 * (quad(r, C) + (logdet(C) if det else 0.0))
        return f

    obs = []
    f = lk.gaussian_log_likelihood
    fn = ["gaussian_log_likelihood"]
    for name, args, kw, det in (
            ("default", (), {}, True), ("inverse", (), {"inverse_method": "inverse"}, True),
            ("cholesky", (), {"inverse_method": "cholesky"}, True), ("positional", (True, "cholesky"), {}, True),
            ("inverse.no_logdet", (), {"include_logdet": False, "inverse_method": "inverse"}, False),
            ("cholesky.no_logdet", (), {"include_logdet": False, "inverse_method": "cholesky"}, False),
            ("no_logdet", (False,), {}, False)):
        obs.append(Ob("C18.dense." + name, fn, [y, mu, A], lambda y, m, a, args=args, kw=kw: f(y, m, sym(a), *args, **kw), spec(det),
                      dims={N: 1}, sizes={N: 6}, linalg=True, rel=1e-7, abs_=1e-9, samples=4, assumes=[LINALG, CHOL]))
    # sparse: data (i, p) at i n + p
    ys, ms = S3("data", "a", "n"), S3("mu", "a", "n")
    As = Sym("A", ("a", "a", "n"), sample=lambda rng, s: onp.stack([posdef(rng, s[:2]) for _ in range(s[2])], axis=2))

    def syms(a):
        return 0.5 * (a + a.transpose((1, 0, 2)))

    def sspec(det):
        def g(y, mu, a):
            S, r = syms(a), mu - y
            if SP.symbolic():
                X = TR.inv_contract(slices(S))
                q = jnp.einsum("ip,pij,jp->", r, X, r)
                return -0.5 * (q + (jnp.sum(TR.slogdet_contract(slices(S))[1]) if det else 0.0))
            C, r = np_dense(S), r.reshape((-1,))
            return -0.5 * (quad(r, C) + (logdet(C) if det else 0.0))
        return g

    for name, args, kw, det in (
            ("default", (), {}, True), ("no_logdet", (), {"include_logdet": False}, False),
            ("inverse", (), {"inverse_method": "inverse"}, True), ("cholesky", (), {"inverse_method": "cholesky"}, True),
            ("cholesky.no_logdet", (False, "cholesky"), {}, False)):
        obs.append(Ob("C18.sparse." + name, fn + ["sparse.dot", "sparse.inv", "sparse.slogdet"], [ys, ms, As],
                      lambda y, m, a, args=args, kw=kw: f(y.reshape((-1,)), m.reshape((-1,)), syms(a), *args, **kw), sspec(det),
                      dims={"a": 1, "n": 1}, sizes={"a": 4, "n": 4}, linalg=True, rel=1e-7, abs_=1e-9, samples=4, assumes=[LINALG]))
    obs.append(lean_ob("C18", "lemma.same_matrix", "Sparse.lean", ["dense_apply", "number", "logabs_dense", "inv_dense"]))
    obs.append(magnitudes("C18"))
    o = jnp.ones
    obs.append(rejects("C18", "rejects", fn, [
        (m, lambda m=m: f(o(2), o(2), jnp.eye(2), inverse_method=m), NotImplementedError)
        for m in ("Inverse", "chol", "lu", "", None, "inverse ", "sparse")] + [
        ("%s without the determinant" % m, lambda m=m: f(o(2), o(2), jnp.eye(2), False, m), NotImplementedError) for m in ("svd", "")]))
    return obs


def magnitudes(prop):
    """Rounding and range, which the proofs leave out: large and small covariances of many data."""
    cases = [(a, n, sc) for a, n in ((1, 60), (3, 40), (2, 1), (6, 30)) for sc in (1e-10, 1.0, 1e9)]

    def check(seed, tier):
        rng = onp.random.default_rng(seed)
        n = 0
        for a, m, sc in cases:
            S = onp.stack([posdef(rng, (a, a)) for _ in range(m)], axis=2) * sc
            if prop == "C17":
                S = S[rng.permutation(a)]
            D = onp.asarray(np_dense(jnp.asarray(S)))
            r = rng.uniform(-1, 1, size=a * m) * sc**0.5
            sg, ld = onp.linalg.slogdet(D)
            q = r @ onp.linalg.solve(D, r)
            if prop == "C17":
                got = {"slogdet": sparse.slogdet(S), "inverse times vector": sparse.dot(sparse.inv(S), jnp.asarray(r))}
                want = {"slogdet": (sg, ld), "inverse times vector": onp.linalg.solve(D, r)}
            else:
                f, want, got = lk.gaussian_log_likelihood, {}, {}
                for k, kw in (("default", {}), ("no_logdet", {"include_logdet": False}), ("cholesky", {"inverse_method": "cholesky"})):
                    for t, C in (("sparse", S), ("dense", D)):
                        got[t + " " + k] = f(r, 0.0 * r, jnp.asarray(C), **kw)
                        want[t + " " + k] = -0.5 * (q + (0.0 if k == "no_logdet" else ld))
            for k in want:
                n += 1
                g, w = [onp.concatenate([onp.ravel(onp.asarray(v, float)) for v in jax.tree_util.tree_leaves(x)]) for x in (got[k], want[k])]
                # the terms of the likelihood may cancel
                sz = onp.max(onp.abs(w)) + (q + abs(ld) if prop == "C18" else 0.0)
                if g.shape != w.shape or not onp.all(onp.abs(g - w) <= 1e-6 * sz):
                    return {"runs": n, "violation": {"case": "%s, %d by %d blocks of %d, scale %g, seed %d" % (k, a, a, m, sc, seed),
                                                     "difference": "%s instead of %s" % (g[:4].tolist(), w[:4].tolist())}}
        return {"runs": n}

    return Ob(prop + ".magnitudes", ["gaussian_log_likelihood"] if prop == "C18" else ["inv", "slogdet"], [], None, None, kind="check",
              check=check, bounded="%d listed sizes and scales, random positive definite matrices" % len(cases), timeout=120)


CHOL = "jax.scipy.linalg.cho_solve with cho_factor solves the symmetric system of which cho_factor reads one triangle"


def posdef(rng, s):
    n = s[0]
    x = rng.uniform(-1, 1, size=(n, n))
    return (x @ x.T + onp.diag(rng.uniform(0.2, 2.0, size=n))) * rng.uniform(0.2, 3.0)
