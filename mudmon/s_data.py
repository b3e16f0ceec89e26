"""C26-C30: decompositions, null spaces, domains, meshes."""
import itertools

import numpy as np

from . import gen
from .core import rule, scenario
from .gen import chance, pick


def table(rng, big=False):
    """Two-dimensional data of many kinds."""
    n, d = int(rng.integers(2, 40)), int(rng.integers(1, 30))
    if big:
        n, d = (int(rng.integers(20, 60)), int(rng.integers(510, 700))) if chance(rng, 0.5) else (int(rng.integers(510, 900)), int(rng.integers(3, 40)))
        if chance(rng, 0.3):
            n, d = int(rng.integers(200, 320)), int(rng.integers(505, 620))
    X = rng.normal(size=(n, d))
    k = int(rng.integers(6))
    if k == 1:  # low rank plus noise
        X = rng.normal(size=(n, min(2, d))) @ rng.normal(size=(min(2, d), d)) + 0.05 * X
    elif k == 2:  # exact low rank
        r = int(rng.integers(1, min(n, d) + 1))
        X = rng.normal(size=(n, r)) @ rng.normal(size=(r, d))
    elif k == 3:
        X = rng.integers(-4, 5, (n, d)) + 0.01 * X
    elif k == 4:
        X = np.cumsum(X, axis=1)
    X = X * 10.0 ** rng.uniform(-3, 3, d) + rng.normal(size=d) * 10.0 ** rng.uniform(-1, 1)
    if chance(rng, 0.1):  # columns in very small or large units
        X = X * 10.0 ** rng.uniform(-14, 8, d)
    if chance(rng, 0.1):
        X[:, int(rng.integers(d))] = pick(rng, [0.0, 1.0, 0.1, -7.3])
    if chance(rng, 0.1):
        X = rng.integers(-50, 50, (n, d))
    if chance(rng, 0.12):  # (almost) standardised already
        X = rng.normal(size=(n, d)) if n <= d else np.linalg.qr(rng.normal(size=(n, d)))[0]
        X = (X - X.mean(axis=0)) / X.std(axis=0)
        X = X * (1 + 10.0 ** rng.uniform(-4, -1.3) * rng.uniform(-1, 1, d)) + 10.0 ** rng.uniform(-9, -1)
    return X


def standard(X):
    X = np.asarray(X, float)
    mu, sd = X.mean(axis=0), X.std(axis=0)
    const = np.array([len(set(col.tolist())) == 1 for col in X.T])
    Z = (X - mu) / np.where(const, 1.0, sd)
    Z[:, const] = 0.0
    return Z


def upto_sign(c, lab, a, b, tol, msg=""):
    e = min(np.abs(a - b).max(), np.abs(a + b).max())
    c.check(lab, e <= tol, msg, "deviation", e, "allowed", tol, a, b)


# ------------------------------------------------------------------ C26
rule("C26", "PCA of random tables (low rank, correlated, integer, constant columns, more columns than rows, beyond 500 columns) judged through its defining properties and an own eigen-decomposition; transformed copies of the data re-analysed.")


def judge_pca(c, rng, X, k, arg):
    from mud.preprocessing import pca

    n, d = X.shape
    kw = {} if k == 2 and chance(rng, 0.5) else {"n_components": k}
    res, S = pca(arg, k) if kw and chance(rng, 0.3) else pca(arg, **kw)
    Z = standard(X)
    V = res.components_
    c.check("requested number of directions", V.shape == (k, d) and S.shape == (n, k), V.shape, S.shape, k)
    c.close("orthonormal directions", V @ V.T, np.eye(k), atol=1e-9)
    size = np.abs(Z).max() * np.sqrt(d) + 1e-6
    c.close("scores are projections", S, Z @ V.T, atol=1e-8 * size)
    G = S.T @ S / max(n - 1, 1)
    tot = np.abs(Z).max() ** 2 * d + 1e-6
    c.check("uncorrelated scores", np.abs(G - np.diag(np.diag(G))).max() <= 1e-8 * tot, G)
    ev = np.linalg.eigvalsh(Z.T @ Z / max(n - 1, 1))[::-1] if d <= n else np.concatenate([np.linalg.eigvalsh(Z @ Z.T / max(n - 1, 1))[::-1], np.zeros(d - n)])
    ev = np.maximum(ev, 0)
    c.close("variances are the leading eigenvalues", np.diag(G), ev[:k], atol=1e-8 * max(ev[0], 1e-6))
    c.close("variances are the leading eigenvalues", res.explained_variance_, ev[:k], atol=1e-8 * max(ev[0], 1e-6))
    c.check("variances do not increase", np.all(np.diff(res.explained_variance_) <= 1e-9 * max(ev[0], 1e-6)), res.explained_variance_)
    return res, S, Z, ev


@scenario("C26", "properties", 2000, 40000, need=["orthonormal directions", "scores are projections", "variances are the leading eigenvalues", "reproduced by all components", "invariant under shift and scale"])
def c26_props(c):
    from mud.preprocessing import pca

    rng = c.rng
    X = table(rng)
    n, d = X.shape
    m = min(n, d)
    k = min(m, int(pick(rng, [1, 2, 2, 3, m, int(rng.integers(1, m + 1))])))
    c.note(X=X, k=k)
    src = X.copy()
    res, S, Z, ev = judge_pca(c, rng, X, k, gen.form(rng, X))
    if chance(rng, 0.3):  # options of the decomposition itself
        opt = pick(rng, [{"svd_solver": "full"}, {"whiten": True}, {"whiten": True, "svd_solver": "full"}, {"copy": True}, {"svd_solver": "full", "tol": 0.0}, {"random_state": 3}])
        r3, S3 = pca(gen.form(rng, X), n_components=k, **opt)
        for name, v in opt.items():
            c.check("options reach the decomposition", getattr(r3, name) == v, name, getattr(r3, name), v)
        V3 = r3.components_
        c.close("options: orthonormal directions", V3 @ V3.T, np.eye(k), atol=1e-9)
        c.close("options: leading eigenvalues", r3.explained_variance_, ev[:k], atol=1e-8 * max(ev[0], 1e-6))
        P3 = Z @ V3.T
        if "whiten" in opt:
            if ev[k - 1] > 1e-9 * max(ev[0], 1e-6):
                c.close("options: whitened scores", S3 * np.sqrt(ev[:k]), P3, atol=1e-6 * (np.abs(P3).max() + 1e-9))
        else:
            c.close("options: scores are projections", S3, P3, atol=1e-8 * (np.abs(Z).max() * np.sqrt(d) + 1e-6))
    full, F = pca(X, n_components=m)
    c.close("reproduced by all components", F @ full.components_, Z, atol=1e-8 * (np.abs(Z).max() + 1e-12) * np.sqrt(d))
    a, b = rng.uniform(0.2, 5, d) * rng.choice([-1, 1], d), rng.normal(size=d) * 3 * np.abs(X).max(axis=0)
    sgn = np.sign(a)
    r2, S2 = pca(X * a + b, n_components=k)
    for j in range(k):
        gap = min([abs(np.sqrt(ev[j]) - np.sqrt(ev[i])) for i in range(len(ev)) if i != j] + [np.sqrt(ev[0]) * 10]) / np.sqrt(max(ev[0], 1e-300))
        if ev[0] < 1e-9 or ev[j] < 1e-9 * ev[0] or gap < 1e-4:
            c.saw("direction not unique")
            continue
        upto_sign(c, "invariant under shift and scale", S2[:, j], S[:, j], 1e-7 / gap * np.abs(S[:, 0]).max() + 1e-10, f"score {j}")
        upto_sign(c, "invariant under shift and scale", r2.components_[j] * sgn, res.components_[j], 1e-7 / gap, f"direction {j}")
    c.same("data kept", X, src)


@scenario("C26", "larger tables", 32, 400, need=["variances are the leading eigenvalues", "repeated call agrees"])
def c26_large(c):
    from mud.preprocessing import pca

    rng = c.rng
    X = table(rng, big=True)
    k = int(rng.integers(1, 5))
    c.note(X=X, k=k)
    st = np.random.get_state()[1].copy()
    res, S, Z, ev = judge_pca(c, rng, X, min(k, min(X.shape)), X)
    c.same("repeated call agrees", pca(X, n_components=min(k, min(X.shape)))[1], S)
    c.same("random state untouched", np.random.get_state()[1], st)


@scenario("C26", "refusals", 200, 3000, need=["not two-dimensional refused"])
def c26_refuse(c):
    from mud.preprocessing import pca

    rng = c.rng
    nd = int(pick(rng, [0, 1, 3, 4]))
    X = rng.normal(size=tuple(int(v) for v in rng.integers(1, 5, nd)))
    c.note(X=X)
    e = c.refused("not two-dimensional refused", lambda: pca(X.tolist() if chance(rng, 0.4) else X), ValueError)


# ------------------------------------------------------------------ C27
rule("C27", "SVD of the same kinds of tables: orthonormality, ordering, exact reproduction of the standardised data, invariance, refusals.")


@scenario("C27", "properties", 2000, 40000, need=["left vectors orthonormal", "right vectors orthonormal", "ordered", "product reproduces data", "invariant under shift and scale"])
def c27_props(c):
    from mud.preprocessing import svd

    rng = c.rng
    X = table(rng)
    n, d = X.shape
    m = min(n, d)
    c.note(X=X)
    src = X.copy()
    U, S, V = svd(gen.form(rng, X))
    Z = standard(X)
    size = np.abs(Z).max() * np.sqrt(n * d) + 1e-5
    c.check("shapes", np.ndim(S) == 1 and len(S) == m and U.shape[0] == n and U.shape[1] >= m and V.shape[1] == d and V.shape[0] >= m, U.shape, S.shape, V.shape)
    c.close("left vectors orthonormal", U.T @ U, np.eye(U.shape[1]), atol=1e-9)
    c.close("right vectors orthonormal", V @ V.T, np.eye(V.shape[0]), atol=1e-9)
    c.check("ordered", np.all(S >= 0) and np.all(np.diff(S) <= 1e-12 * size), S)
    c.close("product reproduces data", (U[:, :m] * S) @ V[:m], Z, atol=1e-9 * size + 1e-12)
    a, b = rng.uniform(0.2, 5, d) * rng.choice([-1, 1], d), rng.normal(size=d) * 3 * np.abs(X).max(axis=0)
    U2, S2, V2 = svd(X * a + b)
    c.close("invariant under shift and scale", S2, S, atol=1e-7 * size)
    for j in range(m):
        gap = min([abs(S[j] - S[i]) for i in range(m) if i != j] + [S[j]]) / max(S[0], 1e-300)
        if gap < 1e-4 or S[0] < 1e-6:
            continue
        upto_sign(c, "invariant under shift and scale", U2[:, j], U[:, j], 1e-7 / gap, f"left {j}")
        upto_sign(c, "invariant under shift and scale", V2[j] * np.sign(a), V[j], 1e-7 / gap, f"right {j}")
    c.same("data kept", X, src)


@scenario("C27", "larger tables", 24, 300, need=["product reproduces data"])
def c27_large(c):
    from mud.preprocessing import svd

    rng = c.rng
    n, d = (int(rng.integers(300, 1150)), int(rng.integers(1, 30))) if chance(rng, 0.7) else (int(rng.integers(5, 40)), int(rng.integers(300, 900)))
    X = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-3, 3, d) + rng.normal(size=d) * 10.0 ** rng.uniform(-1, 1)
    c.note(n=n, d=d, X=X[:2, :5])
    U, S, V = svd(X)
    Z, m = standard(X), min(n, d)
    size = np.abs(Z).max() * np.sqrt(n * d)
    c.close("left vectors orthonormal", U.T @ U, np.eye(U.shape[1]), atol=1e-9)
    c.close("right vectors orthonormal", V @ V.T, np.eye(V.shape[0]), atol=1e-9)
    c.check("ordered", np.all(S >= 0) and np.all(np.diff(S) <= 1e-12 * size), S)
    c.close("product reproduces data", (U[:, :m] * S) @ V[:m], Z, atol=1e-11 * size)


@scenario("C27", "tall and nearly dependent", 120, 2000, need=["small singular values accurate", "product reproduces data"])
def c27_tall(c):
    """Many more rows than columns, columns that almost repeat each other: the small singular values are real ones, not rounding."""
    from mud.preprocessing import svd

    rng = c.rng
    d = int(rng.integers(1, 7))
    n = int(rng.integers(8, 80)) * d + int(rng.integers(0, 20))
    if n > 600:
        n = 600
    B = rng.normal(size=(n, d))
    for j in range(1, d):
        if chance(rng, 0.6):
            B[:, j] = B[:, int(rng.integers(j))] * float(pick(rng, [1, -1, 2.0])) + B[:, j] * 10.0 ** rng.uniform(-10, -3)
    X = B * 10.0 ** rng.uniform(-2, 2, d)
    if chance(rng, 0.3) and n <= 600:
        X = X.T.copy()
    c.note(X=X)
    U, S, V = svd(gen.form(rng, X))
    Z = standard(X)
    m = min(Z.shape)
    top = np.linalg.norm(Z)
    ref_s = np.linalg.svd(Z, compute_uv=False)
    c.close("small singular values accurate", S, ref_s, atol=1e-12 * top)
    c.close("product reproduces data", (U[:, :m] * S) @ V[:m], Z, atol=1e-12 * top)
    c.close("right vectors orthonormal", V @ V.T, np.eye(V.shape[0]), atol=1e-11)
    c.close("left vectors orthonormal", U.T @ U, np.eye(U.shape[1]), atol=1e-11)
    c.check("ordered", np.all(S >= 0) and np.all(np.diff(S) <= 1e-14 * top), S)


@scenario("C27", "options", 300, 5000, need=["option reaches the decomposition", "thin: product reproduces data"])
def c27_options(c):
    """Further keyword arguments are those of the underlying decomposition."""
    from mud.preprocessing import svd

    rng = c.rng
    X = table(rng)
    n, d = X.shape
    m = min(n, d)
    thin = bool(rng.integers(2))
    c.note(X=X, thin=thin)
    U, S, V = svd(gen.form(rng, X), full_matrices=not thin)
    Z = standard(X)
    size = np.abs(Z).max() * np.sqrt(n * d) + 1e-5
    want = ((n, m), (m,), (m, d)) if thin else ((n, n), (m,), (d, d))
    c.check("option reaches the decomposition", (U.shape, S.shape, V.shape) == want, (U.shape, S.shape, V.shape), "instead of", want)
    c.close(("thin: " if thin else "full: ") + "product reproduces data", (U[:, :m] * S) @ V[:m], Z, atol=1e-9 * size + 1e-12)
    c.close("left vectors orthonormal", U.T @ U, np.eye(U.shape[1]), atol=1e-9)
    c.close("right vectors orthonormal", V @ V.T, np.eye(V.shape[0]), atol=1e-9)
    c.check("ordered", np.all(S >= 0) and np.all(np.diff(S) <= 1e-12 * size), S)
    c.refused("unknown options refused", lambda: svd(X, no_such_option=1), TypeError)


@scenario("C27", "refusals", 200, 3000, need=["not two-dimensional refused"])
def c27_refuse(c):
    from mud.preprocessing import svd

    rng = c.rng
    nd = int(pick(rng, [0, 1, 3, 4]))
    X = rng.normal(size=tuple(int(v) for v in rng.integers(1, 5, nd)))
    c.note(X=X)
    c.refused("not two-dimensional refused", lambda: svd(X.tolist() if chance(rng, 0.4) else X), ValueError)


# ------------------------------------------------------------------ C28
rule("C28", "Matrices with prescribed singular values (all shapes and ranks, scales, values around the threshold); count, orthonormality, annihilation and completeness of the returned basis.")


@scenario("C28", "basis", 3000, 80000, need=["number of columns", "orthonormal", "annihilated", "complete", "threshold"])
def c28_basis(c):
    from mud.util import null_space

    rng = c.rng
    m, n = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    if chance(rng, 0.12):  # larger shapes, tall and wide
        m, n = pick(rng, [(int(rng.integers(20, 70)), n), (m, int(rng.integers(20, 70))), (int(rng.integers(20, 50)), int(rng.integers(20, 50)))])
    k = min(m, n)
    scale = 10.0 ** rng.uniform(-8, 8)
    s = np.sort(np.exp(rng.uniform(-1.5, 1.5, k)))[::-1]
    s /= s[0]
    rcond = None
    r = int(rng.integers(0, k + 1))
    kind = int(rng.integers(5))
    if kind == 0:
        s[r:] = 0
    elif kind == 1:  # values on both sides of a given threshold
        rcond = float(10.0 ** rng.uniform(-9, -0.6)) if chance(rng, 0.7) else float(10.0 ** rng.uniform(-11.5, -9))
        r = max(r, 1)
        s[:r] = np.sort(np.maximum(rcond * 10.0 ** rng.uniform(0.05, 2, r), 0))[::-1]
        s[0] = 1.0
        s[1:r] = np.minimum(s[1:r], 1.0)
        s[r:] = np.sort(rcond * 10.0 ** rng.uniform(-2, -0.05, k - r))[::-1]
        r = int(np.sum(s > rcond))
    elif kind == 2:
        r = k
    elif kind == 4:  # small but far above rounding
        s = np.sort(10.0 ** rng.uniform(-13, 0, k))[::-1]
        s[0] = 1.0
        s[r:] = 0
        r = int(np.sum(s > 0))
        rcond = None if chance(rng, 0.7) else 1e-14
    else:
        rcond = pick(rng, [1e-12, 1e-10, 1e-3])
        s[r:] = 0
        s[:r] = np.maximum(s[:r], 0.05)
        r = int(np.sum(s > 0))
    U, V = np.linalg.qr(rng.normal(size=(m, m)))[0], np.linalg.qr(rng.normal(size=(n, n)))[0]
    A = (U[:, :k] * s * scale) @ V[:, :k].T
    exact = kind == 0 and r == 0
    if kind == 0 and chance(rng, 0.3):  # integer matrices
        A = rng.integers(-3, 4, (m, max(r, 1))) @ rng.integers(-3, 4, (max(r, 1), n))
        s = np.linalg.svd(A, compute_uv=False)
        r = int(np.sum(s > 1e-9 * max(s[0], 1e-300))) if s[0] > 0 else 0
        scale = 1.0
        exact = r == 0
    c.note(A=A, rcond=rcond)
    src = np.array(A)
    Z = null_space(gen.form(rng, A)) if rcond is None and chance(rng, 0.5) else null_space(gen.form(rng, A), rcond=rcond)
    if exact:
        r = 0
    c.check("number of columns", Z.shape == (n, n - r), Z.shape, "rank", r, "of", n)
    if rcond is not None:
        c.saw("threshold")
    c.close("orthonormal", Z.T @ Z, np.eye(n - r), atol=1e-10)
    bound = (s[r] if r < k and kind == 1 else 0.0) + 1e-12
    top = np.linalg.norm(np.asarray(A, float), 2)
    c.check("annihilated", Z.size == 0 or np.linalg.norm(A @ Z, 2) <= bound * max(top, 1e-300) * 1.001 + 1e-300, "norm", np.linalg.norm(A @ Z) if Z.size else 0)
    if r:
        R = np.linalg.svd(np.asarray(A, float))[2][:r].T
        c.close("complete", np.linalg.svd(np.hstack([R, Z]), compute_uv=False), np.ones(n), atol=1e-6)
    else:
        c.saw("complete")
    c.same("matrix kept", A, src)


@scenario("C28", "thresholds of nothing", 200, 4000, need=["zero threshold"])
def c28_zero(c):
    """A threshold of zero (or next to it): only what is exactly annihilated counts."""
    from mud.util import null_space

    rng = c.rng
    n = int(rng.integers(1, 7))
    m = n if chance(rng, 0.6) else int(rng.integers(1, 7))
    A = np.zeros((m, n))
    k = min(m, n)
    d = 10.0 ** rng.uniform(-60, 3, k) * rng.choice([-1, 1], k)
    d[rng.random(k) < 0.3] = 0.0
    A[np.arange(k), rng.permutation(n)[:k]] = d
    rcond = pick(rng, [0.0, 0, np.float64(0), 1e-40, 1e-20])
    s = np.abs(d)
    if rcond and np.any((s > s.max() * rcond / 2) & (s < s.max() * rcond * 2)):
        return
    c.note(A=A, rcond=rcond)
    r = int(np.sum(s > s.max() * rcond))
    Z = null_space(A, rcond=rcond) if chance(rng, 0.5) else null_space(A, rcond)
    c.check("zero threshold", Z.shape == (n, n - r), Z.shape, "rank", r, "of", n, "threshold", rcond)
    if n > r:
        c.close("zero threshold", Z.T @ Z, np.eye(n - r), atol=1e-10)
        c.check("zero threshold", np.abs(A @ Z).max() <= s.max() * (rcond * 1.001 + 1e-14), A @ Z)


@scenario("C28", "complex", 400, 6000, need=["complex: orthonormal", "complex: annihilated"])
def c28_complex(c):
    """Complex matrices: conjugation matters."""
    from mud.util import null_space

    rng = c.rng
    m, n = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    r = int(rng.integers(0, min(m, n) + 1))
    z = lambda *k: rng.normal(size=k) + 1j * rng.normal(size=k)
    A = z(m, r) @ z(r, n) if r else np.zeros((m, n), complex)
    if r:
        s = np.linalg.svd(A, compute_uv=False)
        if s[r - 1] < 1e-6 * s[0]:
            return
    c.note(A=A)
    Z = null_space(A, rcond=1e-10) if chance(rng, 0.5) else null_space(A)
    c.check("complex: number of columns", Z.shape == (n, n - r), Z.shape, "rank", r)
    if n > r:
        c.check("complex: orthonormal", np.abs(Z.conj().T @ Z - np.eye(n - r)).max() < 1e-10)
        c.check("complex: annihilated", np.abs(A @ Z).max() <= 1e-11 * (np.abs(A).max() * n + 1e-300), np.abs(A @ Z).max())


@scenario("C28", "single precision", 300, 5000, need=["single: number of columns", "single: annihilated"])
def c28_single(c):
    """Matrices stored in single precision: the rank is judged at that precision."""
    from mud.util import null_space

    rng = c.rng
    m, n = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    r = int(rng.integers(0, min(m, n) + 1))
    if chance(rng, 0.5):  # exactly representable, exactly dependent
        A = rng.integers(-4, 5, (m, r)) @ rng.integers(-4, 5, (r, n)) if r else np.zeros((m, n))
    else:
        A = rng.normal(size=(m, r)) @ rng.normal(size=(r, n)) if r else np.zeros((m, n))
    if chance(rng, 0.2):
        A = A * (1 + 1j)
        A = A.astype(np.complex64)
    else:
        A = A.astype(np.float32)
    s = np.linalg.svd(A.astype(complex if np.iscomplexobj(A) else float), compute_uv=False)
    top = s[0] if len(s) else 0.0
    eps = float(np.finfo(np.float32).eps)
    tol = eps * max(m, n)
    noise = np.linalg.svd(A, compute_uv=False)  # what single precision itself makes of the dependent part
    r = int((s > 1e-3 * top).sum()) if top > 0 else 0
    if top > 0 and (np.any((s <= 1e-3 * top) & (s > 0.3 * tol * top)) or np.any(noise[r:] > 0.5 * tol * top)):
        c.saw("too close to the threshold to be judged")
        return
    c.note(A=A)
    Z = null_space(A)
    c.check("single: number of columns", Z.shape == (n, n - r), Z.shape, "rank", r)
    if n > r:
        c.check("single: orthonormal", np.abs(Z.conj().T @ Z - np.eye(n - r)).max() < 1e-5)
        c.check("single: annihilated", np.abs(A @ Z).max() <= 20 * tol * (np.abs(A).max() * n + 1e-300), np.abs(A @ Z).max())
    if r:
        given = float(10.0 ** rng.uniform(-5, -3.5))
        c.check("single: number of columns", null_space(A, rcond=given).shape == (n, n - r), "threshold", given, "rank", r)


# ------------------------------------------------------------------ C29
rule("C29", "Rank updates of random matrices (tall, wide, deficient, repeated singular values) against Eckart-Young optimality; the rank-convergence study's errors against independently solved problems.")


@scenario("C29", "updates", 2000, 40000, need=["one entry per rank", "rank of entry", "closest of its rank", "last entry is the matrix"])
def c29_updates(c):
    from mud.util import rank_decomposition

    rng = c.rng
    m, n = int(rng.integers(1, 10)), int(rng.integers(1, 10))
    A = gen.operator(rng, m, n) * 10.0 ** (rng.integers(-4, 5) if chance(rng, 0.7) else rng.integers(-60, 60))
    k = min(m, n)
    if chance(rng, 0.2):
        A = rng.integers(-4, 5, (m, n))
    elif chance(rng, 0.2) and k > 1:  # repeated singular values
        A = np.linalg.qr(rng.normal(size=(max(m, n), max(m, n))))[0][:m, :n] * 2.0
    c.note(A=A)
    s = np.linalg.svd(np.asarray(A, float), compute_uv=False)
    src = np.array(A)
    L = rank_decomposition(gen.form(rng, A))
    c.check("one entry per rank", len(L) == k, len(L), k)
    size = s[0] + 1e-300
    for i, M in enumerate(L):
        M = np.asarray(M)
        c.check("shape", M.shape == (m, n), M.shape)
        sv = np.linalg.svd(M, compute_uv=False)
        c.check("rank of entry", np.all(sv[i + 1:] <= 1e-9 * size), "entry", i, sv)
        if s[i] > 1e-6 * size:
            c.check("rank of entry", sv[i] > 0.5 * s[i], "entry", i, sv)
        best = np.sqrt((s[i + 1:] ** 2).sum())
        c.check("closest of its rank", np.linalg.norm(A - M) <= best + 1e-9 * size * np.sqrt(k), "entry", i, np.linalg.norm(A - M), best)
    c.close("last entry is the matrix", L[-1], np.asarray(A, float), atol=1e-9 * size)
    c.same("matrix kept", A, src)


@scenario("C29", "complex and narrow types", 300, 5000, need=["complex: closest of its rank", "complex: last entry is the matrix"])
def c29_complex(c):
    from mud.util import rank_decomposition

    rng = c.rng
    m, n = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    r = int(rng.integers(1, min(m, n) + 1))
    z = lambda *k: rng.normal(size=k) + 1j * rng.normal(size=k)
    A = (z(m, r) @ z(r, n) if chance(rng, 0.4) else z(m, n)) * 10.0 ** rng.integers(-4, 5)
    c.note(A=A)
    s = np.linalg.svd(A, compute_uv=False)
    src = A.copy()
    L = rank_decomposition(A)
    c.check("complex: one entry per rank", len(L) == min(m, n), len(L))
    for i, M in enumerate(L):
        best = np.sqrt((s[i + 1:] ** 2).sum())
        c.check("complex: closest of its rank", np.linalg.norm(A - M) <= best + 1e-9 * s[0] * np.sqrt(min(m, n)), "entry", i, np.linalg.norm(A - M), best)
        c.check("complex: rank of entry", np.all(np.linalg.svd(np.asarray(M), compute_uv=False)[i + 1:] <= 1e-9 * s[0]), "entry", i)
    c.close("complex: last entry is the matrix", L[-1], A, atol=1e-9 * s[0])
    c.same("matrix kept", A, src)
    B = A.real.astype(np.float32)
    L = rank_decomposition(B)
    top = np.linalg.norm(B)
    c.check("last entry is the matrix", np.abs(np.asarray(L[-1]) - B).max() <= 1e-4 * top, "single precision", np.abs(np.asarray(L[-1]) - B).max())


@scenario("C29", "rank study", 32, 400, need=["errors by rank", "errors by dimension", "full rank = full problem"])
def c29_study(c):
    from mud.examples import linear

    from .s_linear import Lin, map_ref, mud_ref

    rng = c.rng
    p, m = int(rng.integers(2, 9)), int(rng.integers(1, 9))
    seed = int(rng.integers(10000))
    c.note(p=p, m=m, seed=seed)
    lam, prob = linear.random_linear_problem(dim_input=p, dim_output=m, seed=seed)
    A, b, mean, cov = np.array(prob.A), np.array(prob.b), np.array(prob.mean_i), np.array(prob.cov_i)
    if np.linalg.cond(A) > 200:
        c.saw("operator too ill conditioned")
        return
    from .s_examples import ranks_padded

    out = ranks_padded(c, lambda: linear.run_high_dim_linear(dim_input=p, dim_output=m, seed=seed), m, p)
    u, s, vt = np.linalg.svd(A, full_matrices=False)
    K = len(s)

    def errs(Ak, y, rk, alpha):
        L = object.__new__(Lin)
        L.A, L.m, L.p, L.rank = Ak, len(Ak), p, rk
        L.b_arg, L.y_arg, L.mean_arg, L.cov_arg, L.obs_arg, L.alpha_arg = b.ravel()[: len(Ak)], y.ravel(), mean.ravel(), cov, None, alpha
        L.sc = np.abs(Ak).max()
        ls = np.linalg.lstsq(Ak, y.reshape(-1, 1) - L.b, rcond=1e-9)[0]
        return [np.linalg.norm(x - lam) / np.linalg.norm(lam) for x in (mud_ref(L), map_ref(L)[0], ls)]

    rank_e = [[errs((M := (u[:, :k] * s[:k]) @ vt[:k]), M @ lam + b, k, al) for k in (min(d, K) for d in range(1, m + 1))] for al in (1.0, 0.1, 0.001)]
    dim_e = []
    ok = True
    for al in (1.0, 0.1, 0.001):
        row = []
        for d in range(1, m + 1):
            sv = np.linalg.svd(A[:d], compute_uv=False)
            ok = ok and sv[-1] > 1e-2 * sv[0]
            row.append(errs(A[:d], A[:d] @ lam + b[:d], min(d, p), al))
        dim_e.append(row)
    got = [np.array(o, float) for o in out[:2]]
    want = {"errors by rank": np.array(rank_e), "errors by dimension": np.array(dim_e)}
    # the study returns both tables; match them by content
    c.check("tables", all(g.shape == (3, m, 3) for g in got), [g.shape for g in got])
    first_is_rank = np.abs(got[0] - want["errors by rank"]).max() <= np.abs(got[1] - want["errors by rank"]).max()
    R, D = (got[0], got[1]) if first_is_rank else (got[1], got[0])
    c.close("errors by rank", R, want["errors by rank"], atol=1e-6)
    if ok:
        c.close("errors by dimension", D, want["errors by dimension"], atol=1e-6)
        c.close("full rank = full problem", R[:, -1], D[:, -1], atol=1e-6)


# ------------------------------------------------------------------ C30
rule("C30", "Domains fitted to random samples, bounds and paddings; unit, normal and n-dimensional meshes of random size and dimension compared with the set of grid points of the box.")


@scenario("C30", "domains", 2000, 40000, need=["bounds of the samples", "bounds given", "contains samples", "inputs kept", "refused without input"])
def c30_domain(c):
    from mud.util import fit_domain

    rng = c.rng
    n, p = int(rng.integers(1, 50)), int(rng.integers(1, 6))
    X, _ = gen.samples(rng, max(n, 2), p)
    if chance(rng, 0.25):  # columns in small and large units
        X = X * 10.0 ** rng.uniform(-14, 6, p)
    pr = pick(rng, [None, 0.0, 0.1, 1.0, float(rng.uniform(0, 3))])
    c.note(X=X, pad=pr)
    kw = {} if pr is None else {"pad_ratio": pr}
    f = 0.1 if pr is None else pr
    arg = gen.form(rng, X, lists=False)
    src = X.copy()
    D = np.asarray(fit_domain(arg, **kw) if chance(rng, 0.5) else fit_domain(x=arg, **kw))
    want = np.array([[min(col) - f * (max(col) - min(col)), max(col) + f * (max(col) - min(col))] for col in X.T.tolist()])
    c.close("bounds of the samples", D, want, rtol=1e-12)
    c.close("bounds of the samples", D - X.min(axis=0)[:, None], want - X.min(axis=0)[:, None], atol=1e-12 * np.abs(X).max())
    c.check("contains samples", np.all(X >= D[:, 0]) and np.all(X <= D[:, 1]), D)
    B = np.sort(rng.normal(size=(p, 2)) * 10.0 ** rng.uniform(-2, 2, (p, 1)), axis=1)
    keep = B.copy()
    barg = B if chance(rng, 0.6) else gen.form(rng, B, lists=False)
    w = B[:, 1] - B[:, 0]
    for _ in range(2):
        E = np.asarray(fit_domain(min_max_bounds=barg, **kw))
        c.close("bounds given", E, np.column_stack([keep[:, 0] - f * w, keep[:, 1] + f * w]), rtol=1e-12)
        c.same("inputs kept", barg, keep)
    c.same("bounds given", fit_domain(arg, barg, **kw), E)
    c.same("inputs kept", arg, src)
    c.refused("refused without input", lambda: fit_domain(**kw), ValueError)


@scenario("C30", "meshes", 1200, 20000, need=["unit mesh", "normal mesh", "n-dimensional mesh", "coordinates agree"])
def c30_mesh(c):
    from mud import plot, util

    rng = c.rng
    N = int(pick(rng, [1, 2, 3, 7, 20, 50]))
    win = pick(rng, [1, 2, 0.5, 7.25, float(rng.uniform(0.1, 9))])
    c.note(N=N, win=win, i=c.idx)
    default = chance(rng, 0.1)
    kw = {} if default else dict(N=N, window=win)
    if default:
        N, win = 50, 1
    if N > 1:
        for lab, f, lo in (("unit mesh", util.make_2d_unit_mesh, 0.0), ("unit mesh", plot.make_2d_unit_mesh, 0.0), ("normal mesh", plot.make_2d_normal_mesh, -win)):
            X, Y, XX = f(**kw)
            g = lo + (win - lo) * np.arange(N) / (N - 1)
            c.check(lab, XX.shape == (N * N, 2) and X.shape == (N, N) and Y.shape == (N, N), XX.shape, X.shape)
            c.same("coordinates agree", XX, np.column_stack([X.ravel(), Y.ravel()]))
            want = np.array(list(itertools.product(g, g)))
            key = np.lexsort((np.round(XX[:, 1] / win, 9), np.round(XX[:, 0] / win, 9)))
            c.close(lab, XX[key], want, atol=1e-9 * win)
    d = int(rng.integers(1, 5))
    aff = int(rng.integers(2, [0, 60, 25, 9, 6][d]))
    dom = np.sort(rng.normal(size=(d, 2)) * 5, axis=1)
    if chance(rng, 0.2):
        dom = np.column_stack([rng.integers(-3, 1, d), rng.integers(1, 4, d)])
    if chance(rng, 0.1) and d == 1:
        aff = 100
        mesh, pts = plot.build_nd_mesh_grid(dom)
    else:
        mesh, pts = plot.build_nd_mesh_grid(gen.form(rng, dom), aff=aff) if chance(rng, 0.5) else plot.build_nd_mesh_grid(gen.form(rng, dom), aff)
    axes = [lo + (hi - lo) * np.arange(aff - 1) / (aff - 1) for lo, hi in dom]
    want = np.array(list(itertools.product(*axes))).T
    c.check("n-dimensional mesh", np.shape(pts) == (d, (aff - 1) ** d), np.shape(pts))
    w = (dom[:, 1] - dom[:, 0])[:, None]
    q = np.round((pts - dom[:, :1]) / w * (aff - 1)).astype(int)
    key = np.lexsort(q[::-1])
    c.close("n-dimensional mesh", ((pts - dom[:, :1]) / w)[:, key], (want - dom[:, :1]) / w, atol=1e-9)
    c.check("coordinates agree", len(mesh) == d, len(mesh))
    for j in range(d):
        c.check("coordinates agree", np.shape(mesh[j]) == (aff - 1,) * d, np.shape(mesh[j]))
        c.same("coordinates agree", np.ravel(mesh[j]), pts[j])
        # axis j of the arrays runs over parameter j
        line = np.moveaxis(mesh[j], j, 0).reshape(aff - 1, -1)
        c.close("coordinates agree", line, np.repeat(axes[j][:, None], line.shape[1], axis=1), atol=1e-9 * w.max())
