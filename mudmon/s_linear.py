"""C09-C19: linear problems, functionals, norms, error maps, iteration."""
import itertools

import numpy as np

from . import gen
from .core import Violated, rule, scenario
from .gen import chance, pick
from .taps import Tap


def LGP(*a, **k):
    from mud.base import LinearGaussianProblem

    return LinearGaussianProblem(*a, **k)


class Lin:
    """One linear problem with its meaning (plain float64 columns)."""

    def __init__(self, rng, m=None, p=None, rank=None, full_row=False, defaults=True, maxdim=7):
        self.m = m = m or int(rng.integers(1, maxdim))
        self.p = p = p or int(rng.integers(1, maxdim))
        if full_row and m > p:
            self.p = p = m + int(rng.integers(0, 3))
        r = min(m, p)
        if not full_row and rank is None and r > 1 and chance(rng, 0.35):
            r = int(rng.integers(1, r))
        self.rank = rank or r
        self.A = gen.operator(rng, m, p, self.rank)
        if chance(rng, 0.3):
            self.A *= 10.0 ** rng.integers(-3, 4)
        if chance(rng, 0.15):  # integer-valued operator
            A = rng.integers(-3, 4, (m, p)).astype(float)
            s = np.linalg.svd(A, compute_uv=False)
            rk = int(np.sum(s > 1e-9 * max(s.max(), 1)))
            if rk and s[rk - 1] > 0.2 and (rk == m or not full_row):
                self.A, self.rank = A, rk
        o = lambda z, q: None if defaults and chance(rng, q) else z
        sc = np.abs(self.A).max() if self.A.any() else 1.0
        self.b_arg = o(rng.normal(size=m) * sc * 2, 0.2)
        self.y_arg = o(rng.normal(size=m) * sc * 2, 0.15)
        self.mean_arg = o(rng.normal(size=p) * 2, 0.2)
        self.cov_arg = o(gen.spd(rng, p, 10 ** rng.uniform(0, 2), 10.0 ** rng.uniform(-2, 2)), 0.2)
        self.obs_arg = o(gen.spd(rng, m, 10 ** rng.uniform(0, 2), sc**2 * 10.0 ** rng.uniform(-2, 2)), 0.2)
        self.alpha_arg = o(float(10.0 ** rng.uniform(-2, 2)), 0.3)
        self.sc = sc

    @property
    def b(self):
        return np.zeros((self.m, 1)) if self.b_arg is None else self.b_arg.reshape(-1, 1)

    @property
    def y(self):
        return np.zeros((self.m, 1)) if self.y_arg is None else self.y_arg.reshape(-1, 1)

    @property
    def mean(self):
        return np.zeros((self.p, 1)) if self.mean_arg is None else self.mean_arg.reshape(-1, 1)

    @property
    def cov(self):
        return np.eye(self.p) if self.cov_arg is None else self.cov_arg

    @property
    def obs(self):
        return np.eye(self.m) if self.obs_arg is None else self.obs_arg

    @property
    def alpha(self):
        return 1.0 if self.alpha_arg is None else self.alpha_arg

    def vec(self, rng, v):
        if v is None:
            return None
        k = int(rng.integers(4))
        v = [v, v.reshape(1, -1), v.reshape(-1, 1), v][k]
        return gen.form(rng, v)

    def make(self, rng=None, **over):
        kw = dict(b=self.b_arg, y=self.y_arg, mean_i=self.mean_arg, cov_i=self.cov_arg, cov_o=self.obs_arg, alpha=self.alpha_arg)
        A = self.A
        if rng is not None:
            A = gen.form(rng, self.A[0] if self.m == 1 and chance(rng, 0.4) else self.A)
            for k in ("b", "y", "mean_i"):
                kw[k] = self.vec(rng, kw[k])
            for k in ("cov_i", "cov_o"):
                kw[k] = None if kw[k] is None else gen.form(rng, kw[k])
            kw = {k: v for k, v in kw.items() if v is not None or chance(rng, 0.5)}
        kw.update(over)
        return LGP(A, **kw)

    def note(self, c, **kw):
        c.note(A=self.A, b=self.b, y=self.y, mean=self.mean, cov=self.cov, obs=self.obs, alpha=self.alpha, rank=self.rank, **kw)

    def truncated(self, k):
        t = object.__new__(Lin)
        t.__dict__.update(self.__dict__)
        t.m = k
        t.A = self.A[:k]
        t.b_arg = None if self.b_arg is None else self.b_arg[:k]
        t.y_arg = None if self.y_arg is None else self.y_arg[:k]
        t.obs_arg = None if self.obs_arg is None else self.obs_arg[:k, :k]
        s = np.linalg.svd(t.A, compute_uv=False)
        t.rank = int(np.sum(s > 1e-10 * np.abs(self.A).max()))
        t.wellcond = t.rank > 0 and s[t.rank - 1] > 1e-3 * s[0]
        return t


def in_units(L, s, t):
    """The same problem with outputs measured in units of 1/s and parameters in units of 1/t."""
    S = object.__new__(Lin)
    S.__dict__.update(L.__dict__)
    S.A = L.A * (s / t)
    S.b_arg, S.y_arg, S.mean_arg = L.b.ravel() * s, L.y.ravel() * s, L.mean.ravel() * t
    S.cov_arg, S.obs_arg, S.sc = L.cov * t**2, L.obs * s**2, L.sc * s / t
    return S


def draw_units(rng):
    """Powers of two: a change of units that costs no rounding."""
    return 2.0 ** int(rng.integers(-40, 41)), 2.0 ** int(rng.integers(-40, 41))


def same_in_units(c, lab, got, want, msg=""):
    got, want = np.asarray(got, float), np.asarray(want, float)
    c.close(lab, got, want, rtol=1e-8, atol=1e-9 * (np.abs(want).max() + 1e-300), msg=msg)


# ---------------------------------------------------------------- oracles
def mud_ref(L):
    """Minimise |Ax+b-y| over x, nearest to the mean in the inverse initial covariance."""
    C = np.linalg.cholesky(L.cov)
    z = L.y - L.b - L.A @ L.mean
    AC = L.A @ C
    # whitened parameter; least squares in data space, minimum norm in parameter space:
    u, s, vt = np.linalg.svd(L.A @ np.eye(L.p), full_matrices=False)
    r = L.rank
    proj = u[:, :r] @ (u[:, :r].T @ z)  # part of the residual that can be reproduced
    w = np.linalg.lstsq(AC, proj, rcond=1e-10)[0]
    return L.mean + C @ w


def judge_mud(c, L, x, tol=1e-6):
    x = np.asarray(x, float)
    c.check("MUD: shape", x.shape == (L.p, 1), "shape", x.shape)
    z0 = L.y - L.b - L.A @ L.mean
    size = np.linalg.norm(L.y) + np.linalg.norm(L.b) + np.linalg.norm(L.A) * np.linalg.norm(L.mean) + 1e-12
    res = L.y - L.b - L.A @ x
    u, s, vt = np.linalg.svd(L.A)
    r = L.rank
    c.check("MUD: minimises the residual", np.linalg.norm(u[:, :r].T @ res) <= tol * size,
            "residual component on the range", u[:, :r].T @ res, "size", size)
    if r == L.m:
        c.check("MUD: data reproduced", np.linalg.norm(res) <= tol * size, "residual", res)
    null = vt[r:]  # directions the data say nothing about
    if null.size:
        d = np.linalg.solve(L.cov, x - L.mean)
        c.check("MUD: nearest to the mean", np.linalg.norm(null @ d) <= tol * (np.linalg.norm(d) + np.linalg.norm(np.linalg.solve(L.cov, L.mean)) * 1e-6 + 1e-12),
                "uninformed component of the move", null @ d, "move", d)
    xr = mud_ref(L)
    c.close("MUD: equals reference", x, xr, rtol=1e-5, atol=1e-9 * (np.linalg.norm(L.mean) + size / max(L.sc, 1e-12)))


def map_ref(L):
    # normal equations solved through a stacked least squares system
    Co = np.linalg.cholesky(L.obs)
    Ci = np.linalg.cholesky(L.alpha * L.cov)
    M = np.vstack([np.linalg.solve(Co, L.A), np.linalg.solve(Ci, np.eye(L.p))])
    rhs = np.vstack([np.linalg.solve(Co, L.y - L.b), np.linalg.solve(Ci, L.mean)])
    x = np.linalg.lstsq(M, rhs, rcond=None)[0]
    return x, M


def map_slack(L, M):
    """What inverting the half-Hessian in double precision may cost (relative, absolute)."""
    H = M.T @ M
    rel = 1e-14 * np.linalg.cond(H) + 1e-14 * np.linalg.cond(L.obs) + 1e-14 * np.linalg.cond(L.cov)
    gain = np.linalg.norm(np.linalg.inv(H), 2) * np.linalg.norm(np.linalg.solve(L.obs, L.A), 2)
    return rel, rel * gain * np.linalg.norm(L.y - L.b - L.A @ L.mean)


def judge_map(c, L, x, cov=None, tol=1e-6):
    x = np.asarray(x, float)
    c.check("MAP: shape", x.shape == (L.p, 1), "shape", x.shape)
    xr, M = map_ref(L)
    rel, ab = map_slack(L, M)
    if rel > 1e-4:
        c.saw("MAP: too ill conditioned to judge")
        return
    c.close("MAP: minimises mismatch + regularisation", x, xr, rtol=1e-6, atol=1e-9 * (np.linalg.norm(L.mean) + 1e-9) + ab)
    if cov is not None:
        H = M.T @ M
        c.check("posterior covariance: shape", np.shape(cov) == (L.p, L.p))
        c.close("posterior covariance: inverse half-Hessian", cov, np.linalg.inv(H), rtol=1e-6 + rel)
        c.close("posterior covariance: symmetric", cov, np.asarray(cov).T, rtol=1e-8 + rel)
        c.check("posterior covariance: positive definite", np.linalg.eigvalsh((cov + cov.T) / 2).min() > 0)


def judge_ls(c, L, x):
    want = np.linalg.lstsq(L.A, L.y - L.b, rcond=1e-10)[0]
    c.close("LS: minimum-norm minimiser", x, want, rtol=1e-7, atol=1e-12)


def judge_upcov(c, L, S, cov=None, obs=None, tol=1e-6):
    """Meaning of the updated covariance for operator L.A."""
    cov = L.cov if cov is None else cov
    obs = L.obs if obs is None else obs
    S = np.asarray(S, float)
    c.check("updated covariance: shape", S.shape == (L.p, L.p), S.shape)
    sz = np.abs(S).max() + 1e-300
    u, s, vt = np.linalg.svd(L.A)
    U = u[:, : L.rank]
    pred = U.T @ L.A @ cov @ L.A.T @ U
    lost = 1e-13 * np.abs(cov).max() * np.linalg.cond(pred) * np.linalg.cond(cov)
    c.check("updated covariance: symmetric", np.abs(S - S.T).max() <= 1e-7 * sz + lost, S)
    ev = np.linalg.eigvalsh((S + S.T) / 2)
    c.check("updated covariance: positive semi-definite", ev.min() >= -1e-7 * max(ev.max(), np.abs(cov).max()), ev)
    u, s, vt = np.linalg.svd(L.A)
    r = L.rank
    U = u[:, :r]
    got, want = U.T @ L.A @ S @ L.A.T @ U, U.T @ obs @ U
    pred = U.T @ L.A @ cov @ L.A.T @ U  # cancels in the formula
    sc = np.abs(want).max() + 1e-8 * np.linalg.cond(pred) * np.linalg.cond(want) * np.abs(pred).max()
    c.check("updated covariance: data covariance where informed", np.abs(got - want).max() <= tol * sc, "pushed forward", got, "expected", want)
    N = vt[r:].T
    if N.size:
        Ci = np.linalg.solve(cov, N)  # directions of the whitened complement
        got2, want2 = Ci.T @ S @ Ci, Ci.T @ cov @ Ci
        c.check("updated covariance: initial where uninformed", np.abs(got2 - want2).max() <= tol * (np.abs(want2).max() + 1e-300), got2, want2)
        cross = Ci.T @ S @ L.A.T @ U  # informed and uninformed parts stay uncorrelated
        c.check("updated covariance: initial where uninformed", np.abs(cross).max() <= tol * (np.sqrt(np.abs(want2).max() * np.abs(want).max()) + np.abs(Ci).max() * np.abs(cov).max() * np.abs(L.A).max() * 1e-3 + 1e-300), "cross covariance", cross)


def alt_slack(L):
    """Rounding of the variant: it inverts the updated covariance and the data covariance."""
    aC = L.alpha * L.cov
    P = L.A @ aC @ L.A.T
    k = [np.linalg.cond(m) for m in (P, L.obs, P + L.obs, L.cov)]
    gain = max(np.linalg.norm(P, 2) / np.linalg.eigvalsh(L.obs).min(), np.linalg.norm(L.obs, 2) / max(np.linalg.eigvalsh(P).min(), 1e-300), 1)
    return 1e-14 * max(k) * gain * np.sqrt(k[3])


def judge_alt(c, L, x):
    slack = alt_slack(L)
    if slack > 1e-4:
        c.saw("variant: too ill conditioned to judge")
        return
    xr = mud_ref(L)
    size = np.linalg.norm(xr) + np.linalg.norm(L.mean) + np.linalg.norm(xr - L.mean)
    c.close("variant is the MUD point", x, xr, atol=(1e-6 + slack) * size + 1e-12)


class LinearMonitor(Tap):
    """Judges every solution a linear problem hands out."""

    methods = ("__init__", "solve")

    def __init__(self, c):
        import mud.base

        self.cls = mud.base.LinearGaussianProblem
        super().__init__(c)

    def after(self, obj, st, name, a, out):
        if name == "__init__":
            if type(obj).__name__ != "LinearGaussianProblem":
                return
            L = object.__new__(Lin)
            A = np.array(a["A"], float)
            L.A = A if A.ndim == 2 else A.reshape(1, -1)
            L.m, L.p = L.A.shape
            f = lambda v: None if v is None else np.array(v, float).ravel()
            L.b_arg, L.y_arg, L.mean_arg = f(a["b"]), f(a["y"]), f(a["mean_i"])
            L.cov_arg = None if a["cov_i"] is None else np.array(a["cov_i"], float)
            L.obs_arg = None if a["cov_o"] is None else np.array(a["cov_o"], float)
            L.alpha_arg = a["alpha"]
            s = np.linalg.svd(L.A, compute_uv=False)
            L.rank = int(np.sum(s > 1e-11 * max(s.max(), 1e-300) * max(L.A.shape)))
            L.sc = max(np.abs(L.A).max(), 1e-300)
            L.ok = L.rank > 0 and s[L.rank - 1] > 1e-4 * s[0]
            st["L"] = L
        elif "L" in st:
            L, od = st["L"], a["output_dim"]
            L.alpha_arg = float(obj.alpha)  # studies vary it on a living problem
            if od is not None and od < L.m:
                L = L.truncated(od)
                if not L.wellcond:
                    return
            elif not L.ok:
                return
            self.judge(L, a["method"], out)

    def judge(self, L, method, out):
        c = self.c
        if method == "mud":
            judge_mud(c, L, out)
        elif method == "mud_alt":
            if L.rank == L.m:
                judge_alt(c, L, out)
        elif method == "map":
            judge_map(c, L, out)
        elif method == "ls":
            judge_ls(c, L, out)
        elif method == "all":
            c.check("all: three answers", len(out) == 3)
            judge_mud(c, L, out[0])
            judge_map(c, L, out[1])
            judge_ls(c, L, out[2])


# ------------------------------------------------------------------ C09
rule("C09", "Random linear problems of every shape, rank and argument form; each MUD point is judged by the optimality conditions and against an independent SVD/Cholesky reference.")


@scenario("C09", "random", 9600, 60000, need=["MUD: minimises the residual", "MUD: nearest to the mean", "MUD: data reproduced"])
def c09_random(c):
    rng = c.rng
    L = Lin(rng)
    L.note(c)
    P = L.make(rng)
    k = int(rng.integers(4))
    if k == 0:
        judge_mud(c, L, P.solve("all")[0])
        c.saw("asked for all")
    else:
        judge_mud(c, L, P.solve("mud") if k == 1 else P.solve())


@scenario("C09", "independence", 3200, 20000, need=["independent of observation covariance and scale", "variant is the MUD point"])
def c09_indep(c):
    rng = c.rng
    L = Lin(rng, full_row=chance(rng, 0.7))
    L.note(c)
    x = L.make().solve("mud")
    for _ in range(2):
        x2 = L.make(rng, cov_o=gen.spd(rng, L.m, 1e3, 10.0 ** rng.uniform(-3, 3)), alpha=float(10.0 ** rng.uniform(-3, 3))).solve("mud")
        c.close("independent of observation covariance and scale", x2, x, rtol=1e-6, atol=1e-9)
    if L.rank == L.m:
        for over in ({}, {"alpha": float(10.0 ** rng.uniform(-1, 1))}):
            P = L.make(**over)
            L.alpha_arg = P.alpha
            judge_alt(c, L, P.solve("mud_alt"))


@scenario("C09", "degenerate", 1600, 8000, need=["MUD: minimises the residual"])
def c09_degenerate(c):
    """Repeated, zero and opposed rows; redundant columns; inconsistent data."""
    rng = c.rng
    p = int(rng.integers(1, 6))
    base = gen.operator(rng, int(rng.integers(1, 4)), p)
    rows = [base[int(rng.integers(len(base)))] * pick(rng, [1.0, -1.0, 2.0, 1.0]) for _ in range(int(rng.integers(1, 7)))]
    if chance(rng, 0.4):
        rows.append(np.zeros(p))
    L = Lin(rng, m=len(rows), p=p)
    L.A = np.array(rows)
    L.sc = 1.0
    s = np.linalg.svd(L.A, compute_uv=False)
    L.rank = int(np.sum(s > 1e-10 * s[0]))
    if s[L.rank - 1] < 1e-2 * s[0]:
        return
    L.note(c)
    P = L.make(rng)
    judge_mud(c, L, P.solve("mud"))


@scenario("C09", "scales", 1600, 20000, need=["MUD: data reproduced at every scale", "MUD: nearest to the mean at every scale"])
def c09_scales(c):
    """Observations in very different units: each one is still reproduced to its own scale."""
    rng = c.rng
    m = int(rng.integers(2, 5))
    p = int(rng.integers(m, 7))
    B = gen.operator(rng, m, p)
    u = 10.0 ** np.round(rng.uniform(-5.5, 0, m), 1)
    u[int(rng.integers(m))] = 1.0
    u *= 10.0 ** rng.integers(-3, 4)
    C = gen.spd(rng, p, 10.0) if chance(rng, 0.5) else None
    mean = rng.normal(size=(p, 1)) if chance(rng, 0.5) else None
    y = rng.normal(size=(m, 1)) * u[:, None]
    c.note(B=B, u=u, C=C, mean=mean, y=y)
    x = LGP(B * u[:, None], y=y, mean_i=mean, cov_i=C).solve("mud")
    mu = np.zeros((p, 1)) if mean is None else mean
    r = (B @ x - y / u[:, None]).ravel()
    c.check("MUD: data reproduced at every scale", np.all(np.abs(r) < 2e-2 * (1 + np.abs(y / u[:, None] - B @ mu).max())), "scaled residual", r, "scales", u)
    K = (np.eye(p) if C is None else C) @ B.T
    want = mu + K @ np.linalg.solve(B @ K, y / u[:, None] - B @ mu)
    c.check("MUD: nearest to the mean at every scale", np.linalg.norm(x - want) < 5e-2 * (np.linalg.norm(want - mu) + 1e-9), x, want)


@scenario("C09", "units", 1600, 10000, need=["MUD: same point in other units"])
def c09_units(c):
    """Nothing depends on the units data and parameters are written in."""
    from mud import funs

    rng = c.rng
    L = Lin(rng)
    s, t = draw_units(rng)
    L.note(c, s=s, t=t)
    S = in_units(L, s, t)
    x = L.make().solve("mud")
    judge_mud(c, L, x)
    size = t * (np.abs(x) + np.abs(L.mean)).max()
    lab = "MUD: same point in other units"
    near = lambda a: c.close(lab, np.reshape(a, (-1, 1)), t * x, rtol=1e-8, atol=1e-9 * size)
    near(S.make(rng).solve("mud"))
    near(funs.mud_sol(S.A, S.b, S.y, S.mean, S.cov))
    if L.rank == L.m and alt_slack(L) < 1e-9:
        near(S.make().solve("mud_alt"))


@scenario("C09", "examples", 12, 60, need=["MUD: minimises the residual"])
def c09_examples(c):
    """The repository's own linear studies under the linear monitor."""
    from mud.examples import linear

    rng = c.rng
    with LinearMonitor(c):
        k = c.idx % 3
        if k == 0:
            d = int(rng.integers(2, 12))
            linear.run_high_dim_linear(dim_input=d + 2, dim_output=d, seed=int(rng.integers(1000)))
        elif k == 1:
            A, b, y, mean, cov, ref = linear.rotation_map(qnum=int(rng.integers(2, 9)))
            P = LGP(A, b, y, mean, cov)
            for m in ("mud", "map", "ls"):
                P.solve(m)
        else:
            kw = {}
            if chance(rng, 0.7):
                kw = dict(A=rng.uniform(0.5, 2, (1, 2)), y=rng.normal(size=(1, 1)), mean_i=rng.random((2, 1)), cov_i=gen.spd(rng, 2, 5))
            linear.run_contours(plot_fig=["none"], **kw)
    c.note(k=k, idx=c.idx)


# ------------------------------------------------------------------ C10
rule("C10", "Random linear problems; MAP points and posterior covariances are compared with a stacked least-squares reference, with perturbed objective values and in the small/large noise limits.")


@scenario("C10", "random", 9600, 60000, need=["MAP: minimises mismatch + regularisation", "posterior covariance: inverse half-Hessian"])
def c10_random(c):
    from mud import funs

    rng = c.rng
    L = Lin(rng)
    L.note(c)
    P = L.make(rng)
    if chance(rng, 0.3):
        judge_map(c, L, P.solve("all")[1], P.cov_p if hasattr(P, "cov_p") else None)
        c.saw("asked for all")
    if chance(rng, 0.8):
        judge_map(c, L, P.solve("map"), P.cov_p if hasattr(P, "cov_p") else None)
    x, cov = funs.map_sol_with_cov(L.A, L.b, y=L.y, mean=L.mean_arg, cov=L.cov_arg, data_cov=L.obs_arg, w=L.alpha_arg)
    judge_map(c, L, x, cov)


@scenario("C10", "scales", 1600, 20000, need=["MAP: minimises at every scale"])
def c10_scales(c):
    """Parameters, prior variances and noise levels of very different sizes."""
    from mud import funs

    rng = c.rng
    m, p = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    u = 10.0 ** np.round(rng.uniform(-3, 3, p), 1)  # units of the parameters
    v = 10.0 ** np.round(rng.uniform(-3, 3, m), 1)  # units of the data
    B = rng.normal(size=(m, p))
    Ci, Co = gen.spd(rng, p, 10.0), gen.spd(rng, m, 10.0)
    mean, y = rng.normal(size=(p, 1)), rng.normal(size=(m, 1)) * 3
    c.note(u=u, v=v, B=B, Ci=Ci, Co=Co, mean=mean, y=y)
    M = np.linalg.inv(B.T @ np.linalg.inv(Co) @ B + np.linalg.inv(Ci))
    want = mean + M @ B.T @ np.linalg.inv(Co) @ (y - B @ mean)
    P = LGP(B * v[:, None] / u, y=y * v[:, None], mean_i=mean * u[:, None], cov_i=Ci * np.outer(u, u), cov_o=Co * np.outer(v, v))
    x = P.solve("map") / u[:, None]
    c.check("MAP: minimises at every scale", np.abs(x - want).max() < 1e-3 * (1 + np.abs(want).max()), "in natural units", x, "expected", want)
    x, cov = funs.map_sol_with_cov(B * v[:, None] / u, np.zeros((m, 1)), y=y * v[:, None], mean=mean * u[:, None], cov=Ci * np.outer(u, u), data_cov=Co * np.outer(v, v))
    c.check("MAP: minimises at every scale", np.abs(x / u[:, None] - want).max() < 1e-3 * (1 + np.abs(want).max()), "in natural units", x / u[:, None], "expected", want)
    c.check("MAP: minimises at every scale", np.abs(cov / np.outer(u, u) - M).max() < 1e-3 * np.abs(M).max(), "covariance in natural units", cov / np.outer(u, u), "expected", M)


@scenario("C10", "units", 1600, 10000, need=["MAP: same point in other units", "posterior covariance: same in other units"])
def c10_units(c):
    """Nothing depends on the units data and parameters are written in."""
    from mud import funs

    rng = c.rng
    L = Lin(rng)
    s, t = draw_units(rng)
    L.note(c, s=s, t=t)
    S = in_units(L, s, t)
    P, Q = L.make(), S.make(rng)
    x = P.solve("map")
    judge_map(c, L, x, P.cov_p)
    rel, ab = map_slack(L, map_ref(L)[1])
    if rel > 1e-9:
        c.saw("MAP: too ill conditioned to judge")
        return
    size = t * ((np.abs(x) + np.abs(L.mean)).max() * 1e-9 + ab)
    lab = "MAP: same point in other units"
    c.close(lab, Q.solve("map"), t * x, rtol=1e-8, atol=size)
    same_in_units(c, "posterior covariance: same in other units", Q.cov_p, t**2 * P.cov_p)
    y, cov = funs.map_sol_with_cov(S.A, S.b, S.y, S.mean, S.cov, S.obs, w=L.alpha)
    c.close(lab, y, t * x, rtol=1e-8, atol=size)
    same_in_units(c, "posterior covariance: same in other units", cov, t**2 * P.cov_p)


@scenario("C10", "no better point", 2400, 15000, need=["no neighbour is better"])
def c10_perturb(c):
    rng = c.rng
    L = Lin(rng)
    L.note(c)
    x = L.make(rng).solve("map")

    def J(v):
        r, d = L.A @ v + L.b - L.y, v - L.mean
        return (r * np.linalg.solve(L.obs, r)).sum() + (d * np.linalg.solve(L.alpha * L.cov, d)).sum()

    j0 = J(x)
    size = np.linalg.norm(x) + 1
    for k in range(20):
        h = rng.normal(size=(L.p, 1)) * size * 10.0 ** rng.uniform(-4, 0)
        c.check("no neighbour is better", J(x + h) >= j0 * (1 - 1e-9), "objective", j0, "but", J(x + h), "nearby")


@scenario("C10", "limits", 1200, 8000, need=["small noise: data-consistent", "large noise: initial mean"])
def c10_limits(c):
    rng = c.rng
    L = Lin(rng, full_row=True, defaults=False)
    L.alpha_arg = 1.0
    L.note(c)
    res0 = np.linalg.norm(L.A @ L.mean + L.b - L.y)
    xs = [L.make(cov_o=L.obs * t).solve("map") for t in (1e-5, 1e-2, 1.0, 1e3, 1e8)]
    mism = [float(((r := L.A @ x + L.b - L.y) * np.linalg.solve(L.obs, r)).sum()) for x in xs]
    dist_ = [float(((d := x - L.mean) * np.linalg.solve(L.cov, d)).sum()) for x in xs]
    t = L.obs_arg
    L.obs_arg = t * 1e-5
    rel, ab = map_slack(L, map_ref(L)[1])
    L.obs_arg = t
    if max(rel, ab / np.linalg.norm(xs[0] - L.mean)) > 1e-7:
        c.saw("limits: too ill conditioned to judge")
        return
    for a, b in zip(mism, mism[1:]):
        c.check("mismatch grows with noise", b >= a * (1 - 1e-6) - 1e-9 * mism[-1], mism)
    for a, b in zip(dist_, dist_[1:]):
        c.check("distance to mean shrinks with noise", b <= a * (1 + 1e-6), dist_)
    pred = np.linalg.eigvalsh(np.linalg.solve(np.linalg.cholesky(L.obs), np.linalg.solve(np.linalg.cholesky(L.obs), L.A @ L.cov @ L.A.T).T))
    # exact shrink factor of each whitened data direction is t/(t+ev)
    lim = 1e-5 / (1e-5 + pred.min())
    c.check("small noise: data-consistent", mism[0] <= (1.01 * lim) ** 2 * float(((r := L.A @ L.mean + L.b - L.y) * np.linalg.solve(L.obs, r)).sum()) + 1e-9 * mism[-1], mism)
    mud = L.make().solve("mud")
    dm = float(((d := mud - L.mean) * np.linalg.solve(L.cov, d)).sum())
    far = pred.max() / (1e8 + pred.max())
    c.check("large noise: initial mean", dist_[-1] <= (1.01 * far) ** 2 * dm + 1e-18 * (1 + np.linalg.norm(L.mean) ** 2 / np.linalg.eigvalsh(L.cov).min()), dist_, dm)


# ------------------------------------------------------------------ C11
rule("C11", "Random request sequences (methods x truncations, repeated and interleaved) on one linear problem; each answer is judged alone against the reference for the truncated problem, so no request may influence a later one.")


@scenario("C11", "sequences", 3200, 20000, need=["LS: minimum-norm minimiser", "all: order", "truncation equals smaller problem", "same answer again"])
def c11_seq(c):
    rng = c.rng
    L = Lin(rng, maxdim=6)
    L.note(c)
    P = L.make(rng)
    first = {}
    hist = []
    for _ in range(int(rng.integers(4, 12))):
        k = int(rng.integers(1, L.m + 1)) if chance(rng, 0.6) else None
        m = pick(rng, ["mud", "map", "ls", "all", "mud_alt"])
        T = L if k is None else L.truncated(k)
        if T.rank == 0 or (k is not None and not T.wellcond):
            continue
        if m == "mud_alt" and T.rank < T.m:
            m = "mud"
        hist.append((m, k))
        kw = {} if k is None else {"output_dim": k}
        out = P.solve(m, **kw)
        LinearMonitor.judge(type("o", (), {"c": c})(), T, m, out)
        if m == "all":
            for o, mm in zip(out, ("mud", "map", "ls")):
                c.close("all: order", o, P.solve(mm, **kw), rtol=1e-8, atol=1e-12, msg=mm)
        else:
            Q = T.make()
            c.close("truncation equals smaller problem", out, Q.solve(m), rtol=1e-6, atol=1e-9)
        key = (m, k)
        vals = [np.array(o) for o in (out if m == "all" else [out])]
        if key in first:
            for a, b in zip(first[key], vals):
                c.same("same answer again", b, a)
        first[key] = vals
    c.note(hist=hist)


@scenario("C11", "least squares", 3200, 20000, need=["LS: minimum-norm minimiser"])
def c11_ls(c):
    rng = c.rng
    L = Lin(rng, maxdim=12)
    L.note(c)
    judge_ls(c, L, L.make(rng).solve("ls"))


@scenario("C11", "units", 800, 8000, need=["LS: same point in other units", "all: same in other units"])
def c11_units(c):
    """Nothing depends on the units data and parameters are written in."""
    rng = c.rng
    L = Lin(rng)
    s, t = draw_units(rng)
    L.note(c, s=s, t=t)
    S = in_units(L, s, t)
    k = int(rng.integers(1, L.m + 1))
    T = L.truncated(k)
    if T.rank == 0 or not T.wellcond:
        k, T = L.m, L
    P, Q = L.make(), S.make(rng)
    kw = {} if k == L.m else {"output_dim": k}
    c.close("LS: same point in other units", Q.solve("ls", **kw), t * P.solve("ls", **kw), rtol=1e-8, atol=1e-9 * t * np.abs(P.solve("ls", **kw)).max())
    a, b = P.solve("all", **kw), Q.solve("all", **kw)
    rel, ab = map_slack(T, map_ref(T)[1])
    for i, (u, v) in enumerate(zip(a, b)):
        if i != 1 or rel < 1e-9:
            c.close("all: same in other units", v, t * u, rtol=1e-8, atol=t * ((np.abs(u) + np.abs(L.mean)).max() * 1e-9 + (ab if i == 1 else 0)), msg=i)


@scenario("C11", "sensitivities", 800, 8000, need=["LS: weakly observed parameters recovered"])
def c11_sensitivities(c):
    """Exact data of a known parameter; parameters observed with very different strength."""
    rng = c.rng
    p = int(rng.integers(1, 5))
    m = int(pick(rng, [p, p + 1, 2 * p + 3, int(rng.integers(p, 60))]))
    u = 10.0 ** rng.uniform(-8.7, 0, p)
    A = rng.normal(size=(m, p)) * u
    x = rng.uniform(0.5, 2, p) * rng.choice([-1, 1], p) / u
    b = rng.normal(size=m) * pick(rng, [0, 1e-8])
    y = np.array([sum(float(A[i, j]) * float(x[j]) for j in range(p)) for i in range(m)]) + b
    c.note(A=A, x=x, b=b)
    s = np.linalg.svd(A / np.abs(A).max(axis=0), compute_uv=False)
    if s[-1] < 0.05 * s[0]:
        return
    got = LGP(A, b=b, y=y).solve("ls").ravel()
    c.close("LS: weakly observed parameters recovered", got * u, x * u, atol=1e-3)


@scenario("C11", "answers survive", 1200, 6000, need=["earlier answers unchanged"])
def c11_survive(c):
    """Points already handed out do not change when further requests are made."""
    rng = c.rng
    L = Lin(rng, full_row=True)
    L.note(c)
    P = L.make()
    outs = []
    for _ in range(8):
        m = pick(rng, ["mud", "map", "ls", "mud_alt"])
        o = P.solve(m, output_dim=pick(rng, [None, int(rng.integers(1, L.m + 1))]))
        outs.append((m, o, o.copy()))
        for mm, a, b in outs:
            c.same("earlier answers unchanged", a, b, mm)


# ------------------------------------------------------------------ C12
rule("C12", "Updated covariances from the method, the function and the solver, for operators of all shapes and ranks, judged through their defining properties on informed and uninformed directions.")


@scenario("C12", "random", 6400, 40000, need=["updated covariance: data covariance where informed", "updated covariance: initial where uninformed", "function agrees", "while solving agrees"])
def c12_random(c):
    from mud import funs

    rng = c.rng
    L = Lin(rng)
    L.note(c)
    P = L.make(rng)
    S = P.updated_cov()
    judge_upcov(c, L, S)
    kw = {}
    if L.cov_arg is not None:
        kw["init_cov"] = L.cov_arg
    if L.obs_arg is not None:
        kw["data_cov"] = L.obs_arg
    tiny = lambda M: 1e-11 * np.abs(M).max()  # what cancellation may leave
    c.close("function agrees", funs.updated_cov(L.A, **kw), S, rtol=1e-7, atol=tiny(L.cov))
    # explicit arguments
    cov, obs = gen.spd(rng, L.p, 50), gen.spd(rng, L.m, 50, L.sc**2)
    S2 = funs.updated_cov(L.A, cov, obs)
    judge_upcov(c, L, S2, cov, obs)
    c.close("function agrees", P.updated_cov(L.A, cov, obs), S2, rtol=1e-7, atol=tiny(cov))
    c.close("function agrees", P.updated_cov(init_cov=cov), funs.updated_cov(L.A, cov, L.obs), rtol=1e-7, atol=tiny(cov))
    c.close("function agrees", P.updated_cov(data_cov=obs), funs.updated_cov(L.A, L.cov, obs), rtol=1e-7, atol=tiny(L.cov))
    # another operator, the problem's own covariances
    B = gen.operator(rng, L.m, L.p)
    c.close("function agrees", P.updated_cov(A=B), funs.updated_cov(B, L.cov, L.obs), rtol=1e-7, atol=tiny(L.cov), msg="another operator")
    c.close("function agrees", P.updated_cov(A=B[:1], data_cov=obs[:1, :1]), funs.updated_cov(B[:1], L.cov, obs[:1, :1]), rtol=1e-7, atol=tiny(L.cov), msg="another operator")
    # defaults of the function are identities
    c.close("omitted means identity", funs.updated_cov(L.A), funs.updated_cov(L.A, np.eye(L.p), np.eye(L.m)), rtol=1e-9)
    judge_upcov(c, L, funs.updated_cov(L.A), np.eye(L.p), np.eye(L.m))
    # produced while solving: regularisation-scaled initial covariance
    P.solve("mud_alt")
    c.close("while solving agrees", P.up_cov, funs.updated_cov(L.A, L.alpha * L.cov, L.obs), rtol=1e-6, atol=tiny(L.alpha * L.cov))
    if L.rank == L.m:
        y, up = funs.mud_sol_with_cov(L.A, L.b, L.y, mean=L.mean_arg, cov=L.cov_arg, data_cov=L.obs_arg)
        judge_upcov(c, L, up)
    for T in (L.truncated(k) for k in range(1, L.m)):
        if T.rank and T.wellcond:
            P.solve("mud_alt", output_dim=T.m)
            c.close("while solving agrees", P.up_cov, funs.updated_cov(T.A, L.alpha * L.cov, T.obs), rtol=1e-6, atol=tiny(L.alpha * L.cov), msg="truncated")
    c.close("repeatable", P.updated_cov(), S, rtol=1e-12)


@scenario("C12", "scales", 1600, 20000, need=["updated covariance at every scale"])
def c12_scales(c):
    """Outputs and parameters in very different units."""
    from mud import funs

    rng = c.rng
    m = int(rng.integers(1, 5))
    p = int(rng.integers(m, 6))
    B = gen.operator(rng, m, p)
    v = 10.0 ** np.round(rng.uniform(-5, 0, m), 1) * 10.0 ** rng.integers(-3, 4)  # units of the outputs
    C, O = gen.spd(rng, p, 10.0), gen.spd(rng, m, 10.0)
    c.note(B=B, v=v, C=C, O=O)
    K = C @ B.T @ np.linalg.inv(B @ C @ B.T)
    want = C - K @ (B @ C @ B.T - O) @ K.T
    A, OA = B * v[:, None], O * np.outer(v, v)
    for S in (funs.updated_cov(A, C, OA), LGP(A, y=np.zeros(m), cov_i=C, cov_o=OA).updated_cov(), LGP(A).updated_cov(A, C, OA)):
        c.check("updated covariance at every scale", np.abs(S - want).max() < 2e-2 * (np.abs(want).max() + np.abs(C).max()), S, "expected", want)
        out = B @ S @ B.T
        c.check("updated covariance at every scale", np.abs(out - O).max() < 5e-2 * np.abs(O).max() * 10, "pushed forward", out, "expected", O)


@scenario("C12", "units", 1600, 10000, need=["updated covariance: same in other units"])
def c12_units(c):
    """Nothing depends on the units data and parameters are written in."""
    from mud import funs

    rng = c.rng
    L = Lin(rng)
    s, t = draw_units(rng)
    L.note(c, s=s, t=t)
    S = in_units(L, s, t)
    want = L.make().updated_cov()
    judge_upcov(c, L, want)
    lab = "updated covariance: same in other units"
    tol = dict(rtol=1e-8, atol=1e-9 * t**2 * (np.abs(want).max() + np.abs(L.cov).max()))
    Q = S.make(rng)
    c.close(lab, Q.updated_cov(), t**2 * want, **tol)
    c.close(lab, funs.updated_cov(S.A, S.cov, S.obs), t**2 * want, **tol)
    if L.rank == L.m:
        P = L.make()
        P.solve("mud_alt"), Q.solve("mud_alt")
        tol["atol"] *= max(1, L.alpha)
        c.close(lab, Q.up_cov, t**2 * P.up_cov, **tol)
        c.close(lab, funs.mud_sol_with_cov(S.A, S.b, S.y, S.mean, S.cov, S.obs)[1], t**2 * want, **tol)


# ------------------------------------------------------------------ C13
rule("C13", "All terms of the functionals at many points against independent Cholesky-based formulas, and no sampled point beats the solutions.")


@scenario("C13", "terms", 4800, 30000, need=["term data", "term reg", "term dc_term", "term reg_m", "term bayes", "term dc", "no point beats MAP", "no point beats MUD"])
def c13_terms(c):
    rng = c.rng
    full = chance(rng, 0.75)
    L = Lin(rng, full_row=full, maxdim=5)
    full = L.rank == L.m
    L.note(c)
    P = L.make(rng)
    n = int(pick(rng, [1, 2, 7, 200])) if chance(rng, 0.97) else int(rng.integers(2500, 9000))
    xm, xp = L.make().solve("mud"), L.make().solve("map")
    spread = np.abs(xm - L.mean).max() + np.abs(xp - L.mean).max() + 1e-3
    X = L.mean.T + rng.normal(size=(n, L.p)) * spread * 10.0 ** rng.uniform(-2, 1, (n, 1))
    near = np.where(rng.random((n, 1)) < 0.5, xm.T, xp.T) + rng.normal(size=(n, L.p)) * spread * 1e-3
    X = np.vstack([X, near])

    def ip(V, M):
        W = np.linalg.solve(np.linalg.cholesky(M), V)
        return (W**2).sum(axis=0)

    aC = L.alpha * L.cov
    D = ip(L.A @ X.T + L.b - L.y, L.obs)
    R = ip(X.T - L.mean, aC)
    Xf = gen.form(rng, X, lists=False)
    c.close("term data", P.compute_functionals(Xf, "data"), D, rtol=1e-7)
    c.close("term reg", P.compute_functionals(Xf, terms="reg"), R, rtol=1e-7)
    xb = xp.T.copy()
    if full:
        Q = ip(L.A @ (X.T - L.mean), L.A @ aC @ L.A.T)
        sz = np.abs(D).max() + np.abs(R).max() + np.abs(Q).max()
        c.close("term dc_term", P.compute_functionals(Xf, "dc_term"), Q, rtol=1e-6)
        c.close("term reg_m", P.compute_functionals(Xf, "reg_m"), R - Q, atol=1e-6 * sz)
        c.close("term bayes", P.compute_functionals(Xf, "bayes"), D + R, rtol=1e-7)
        c.close("term dc", P.compute_functionals(Xf, "dc"), D + R - Q, atol=1e-6 * sz)
        allt = P.compute_functionals(Xf)
        c.check("all terms", len(allt) == 5, len(allt))
        for got, want in zip(allt, (D, R, Q, D + R, D + R - Q)):
            c.close("all terms", got, want, atol=1e-6 * sz)
        vals = P.compute_functionals(np.vstack([xm.T, X]), "dc")
        c.check("no point beats MUD", np.all(vals[1:] >= vals[0] - 1e-6 * (sz + abs(vals[0]))), "MUD value", vals[0], "least", vals[1:].min())
        vals = P.compute_functionals(np.vstack([xb, X]), "bayes")
        c.check("no point beats MAP", np.all(vals[1:] >= vals[0] * (1 - 1e-8)), "MAP value", vals[0], "least", vals[1:].min())
    c.same("repeatable", P.compute_functionals(Xf, "reg"), P.compute_functionals(Xf, "reg"))
    if n < 500:
        t = pick(rng, ["data", "reg", "dc_term", "reg_m", "bayes", "dc", "all"] if full else ["data", "reg"])
        c.reused("same array, other points", lambda Z: P.compute_functionals(Z, t), [X], [X + rng.normal(size=X.shape) * spread])


@scenario("C13", "tight minimum", 1600, 10000, need=["gradient vanishes at MAP", "gradient vanishes at MUD"])
def c13_gradient(c):
    """The functionals as computed are stationary exactly at the solutions."""
    rng = c.rng
    L = Lin(rng, full_row=True, maxdim=4, defaults=chance(rng, 0.5))
    L.note(c)
    P = L.make()
    xm, xp = P.solve("mud"), P.solve("map")
    h = 1e-2 * (np.linalg.norm(xm - L.mean) + np.linalg.norm(L.mean) + 1e-3)
    for term, x, lab in (("bayes", xp, "MAP"), ("dc", xm, "MUD")):
        pts = [x.T]
        for j in range(L.p):
            e = np.zeros((1, L.p))
            e[0, j] = h
            pts += [x.T + e, x.T - e]
        v = P.compute_functionals(np.vstack(pts), term)
        up, dn = v[1::2], v[2::2]
        curv = np.abs(up + dn - 2 * v[0])
        allv = np.abs(P.compute_functionals(np.vstack(pts), "reg")).max() + np.abs(v).max()
        c.check(f"gradient vanishes at {lab}", np.all(np.abs(up - dn) <= 1e-4 * curv.max() + 1e-7 * allv), "differences", up - dn, "curvature", curv)


@scenario("C13", "units", 1600, 10000, need=["functionals: same in other units"])
def c13_units(c):
    """The functionals are dimensionless: no unit of data or parameters shows in them."""
    rng = c.rng
    L = Lin(rng, full_row=True, maxdim=5)
    if L.rank < L.m:
        return
    s, t = draw_units(rng)
    L.note(c, s=s, t=t)
    S = in_units(L, s, t)
    X = L.mean.T + rng.normal(size=(int(rng.integers(1, 20)), L.p)) * 3
    P, Q = L.make(), S.make(rng)
    size = sum(np.abs(v).max() for v in P.compute_functionals(X)) * 1e-9
    for term in ("data", "reg", "dc_term", "reg_m", "bayes", "dc"):
        c.close("functionals: same in other units", Q.compute_functionals(X * t, term), P.compute_functionals(X, term), rtol=1e-8, atol=size, msg=term)


# ------------------------------------------------------------------ C14
rule("C14", "Norm functions on random SPD matrices, operators and points in all argument forms against Cholesky-based quadratic forms.")


@scenario("C14", "forms", 8000, 40000, need=["inner product", "norm_input", "norm_data", "norm_predicted", "full functional", "scalar covariance"])
def c14_forms(c):
    from mud import norm

    rng = c.rng
    p, n = int(rng.integers(1, 6)), int(pick(rng, [1, 1, 2, 5, 40]))
    if chance(rng, 0.02):
        n = int(rng.integers(4000, 20000))
    m = int(rng.integers(1, p + 1))
    A = gen.operator(rng, m, p) * 10.0 ** rng.integers(-2, 3)
    X = rng.normal(size=(n, p)) * 10.0 ** rng.uniform(-1, 2)
    mean = rng.normal(size=p)
    data = rng.normal(size=m) * 2
    omean = rng.normal(size=m)
    C, O = gen.spd(rng, p, 100, 10.0 ** rng.uniform(-2, 2)), gen.spd(rng, m, 100, 10.0 ** rng.uniform(-2, 2))
    c.note(A=A, X=X, mean=mean, data=data, C=C, O=O)
    vec = lambda v: pick(rng, [v, v.reshape(1, -1), v.reshape(-1, 1)]).copy()

    def ip(V, M):
        W = np.linalg.solve(np.linalg.cholesky(M), V)
        return (W**2).sum(axis=0)

    V = rng.normal(size=(p, n))
    c.close("inner product", norm.inner_product(gen.form(rng, V, lists=False), gen.form(rng, C, lists=False)), ip(V, C), rtol=1e-7)
    I = ip(X.T - mean[:, None], C)
    D = ip(A @ X.T + data[:, None] - omean[:, None], O)
    Pm = A @ C @ A.T
    Q = ip(A @ (X.T - mean[:, None]), Pm)
    Xf = gen.form(rng, X, lists=False)
    c.close("norm_input", norm.norm_input(Xf, vec(mean), C), I, rtol=1e-7)
    c.close("norm_data", norm.norm_data(A, Xf, vec(data), vec(omean), O), D, rtol=1e-7)
    c.close("norm_predicted", norm.norm_predicted(A, Xf, vec(mean), C), Q, rtol=1e-6)
    if n < 100 and chance(rng, 0.3):
        A2, C2, O2 = A[::-1] * 1.5, C * 2.0, O * 0.7
        c.reused("same arrays, other values", norm.full_functional, [A, X, data, mean, C, omean, O], [A2, X * -1.3, data + 1, mean - 1, C2, omean + 2, O2])
        c.reused("same arrays, other values", norm.inner_product, [V, C], [V[:, ::-1] + 1, C2])
    sz = np.abs(I).max() + np.abs(D).max() + np.abs(Q).max()
    c.close("full functional", norm.full_functional(A, Xf, vec(data), vec(mean), C, vec(omean), O), I + D - Q, atol=1e-6 * sz)
    # omitted observation arguments: zero mean, unit covariance
    D0 = ip(A @ X.T + data[:, None], np.eye(m))
    c.close("omitted observation arguments", norm.full_functional(A, Xf, vec(data), vec(mean), C), I + D0 - Q, atol=1e-6 * (sz + D0.max()))
    c.close("omitted observation arguments", norm.full_functional(A, Xf, vec(data), vec(mean), C, observed_cov=O),
            I + ip(A @ X.T + data[:, None], O) - Q, atol=1e-6 * (sz + ip(A @ X.T + data[:, None], O).max()))
    # scalar covariances
    k, l = float(10.0 ** rng.uniform(-2, 2)), pick(rng, [2, 3.5, np.float64(0.7)])
    c.close("scalar covariance", norm.norm_input(Xf, vec(mean), k), ip(X.T - mean[:, None], k * np.eye(p)), rtol=1e-9)
    c.close("scalar covariance", norm.norm_input(Xf, vec(mean), l), ip(X.T - mean[:, None], l * np.eye(p)), rtol=1e-9)
    c.close("scalar covariance", norm.norm_data(A, Xf, vec(data), vec(omean), l), ip(A @ X.T + (data - omean)[:, None], l * np.eye(m)), rtol=1e-9)
    c.close("scalar covariance", norm.norm_predicted(A, Xf, vec(mean), k), ip(A @ (X.T - mean[:, None]), k * A @ A.T), rtol=1e-6)
    c.close("scalar covariance", norm.full_functional(A, Xf, vec(data), vec(mean), k, vec(omean), l),
            norm.full_functional(A, Xf, vec(data), vec(mean), k * np.eye(p), vec(omean), l * np.eye(m)), rtol=1e-9, atol=1e-9 * sz)
    # scalar means
    c.close("scalar mean", norm.norm_input(Xf, 0.5, C), ip(X.T - 0.5, C), rtol=1e-7)
    c.close("scalar mean", norm.norm_data(A, Xf, vec(data), 0, O), ip(A @ X.T + data[:, None], O), rtol=1e-7)


@scenario("C14", "units", 1200, 10000, need=["inner product in any units", "input norm in any units"])
def c14_units(c):
    """Components in very different units: the norms are dimensionless."""
    from mud import norm

    rng = c.rng
    p, n = int(rng.integers(1, 6)), int(rng.integers(1, 8))
    u = 10.0 ** rng.uniform(-8, 8, p)
    S = gen.spd(rng, p, 100) if chance(rng, 0.6) else np.diag(rng.uniform(0.2, 5, p))
    Z = rng.normal(size=(p, n))
    mean = rng.normal(size=p)
    C = S * np.outer(u, u)
    C = (C + C.T) / 2
    want = (np.linalg.solve(np.linalg.cholesky(S), Z) ** 2).sum(axis=0)
    wantm = (np.linalg.solve(np.linalg.cholesky(S), Z - mean[:, None]) ** 2).sum(axis=0)
    c.note(u=u, S=S, Z=Z)
    c.close("inner product in any units", norm.inner_product(Z * u[:, None], C), want, rtol=1e-5)
    c.close("input norm in any units", norm.norm_input((Z * u[:, None]).T, mean * u, C), wantm, rtol=1e-5)


# ------------------------------------------------------------------ C15
rule("C15", "Each solver function in every accepted argument form (scalars, lists, rows, columns, flat vectors, omitted arguments) against the reference points and the problem class; shape of the result follows the observation's form.")


def _form15(rng, v, allow2d=True):
    """-> (argument, is_matrix) for a vector v."""
    k = int(rng.integers(6))
    if len(v) == 1 and k == 0:
        return float(v[0]), False
    if k == 1:
        return v.tolist(), False
    if k == 2:
        return v.reshape(-1, 1).copy(), True
    if k == 3:
        return v.reshape(1, -1).copy(), True
    if k == 4:
        return v.reshape(-1, 1).tolist(), True
    return v.copy(), False


@scenario("C15", "forms", 8000, 40000, need=["mud_sol", "map_sol", "map_sol_with_cov", "mud_sol_with_cov", "lin_prob", "flat result", "column result"])
def c15_forms(c):
    from mud import funs

    rng = c.rng
    L = Lin(rng, full_row=chance(rng, 0.6))
    L.note(c)
    A = L.A.copy()
    if L.m == 1 and chance(rng, 0.4):
        A = pick(rng, [A[0].copy(), A[0].tolist()])
    else:
        A = gen.form(rng, A)
    b = None if L.b_arg is None else _form15(rng, L.b_arg)[0]
    kw, mat = {}, False
    if L.y_arg is not None:
        kw["y"], mat = _form15(rng, L.y_arg)
    if L.mean_arg is not None:
        kw["mean"] = _form15(rng, L.mean_arg)[0]
    if L.cov_arg is not None:
        kw["cov"] = gen.form(rng, L.cov_arg)
    if L.obs_arg is not None:
        kw["data_cov"] = gen.form(rng, L.obs_arg)
    elif chance(rng, 0.3):
        kw["data_cov"] = None

    def shaped(lab, x):
        x = np.asarray(x)
        if mat:
            c.check("column result", x.shape == (L.p, 1), lab, "shape", x.shape, "for a matrix observation")
        else:
            c.check("flat result", x.shape == (L.p,), lab, "shape", x.shape, "for a flat observation")
        return x.reshape(-1, 1)

    P = LGP(L.A, b=L.b, y=L.y, mean_i=L.mean, cov_i=L.cov, cov_o=L.obs)
    x = shaped("mud_sol", funs.mud_sol(A, b, **kw))
    judge_mud(c, L, x)
    c.close("mud_sol", x, P.solve("mud"), rtol=1e-7, atol=1e-11 + 1e-9 * np.abs(L.mean).max())
    L1 = L
    if chance(rng, 0.5):
        w = float(10.0 ** rng.uniform(*pick(rng, [(-2, 2), (-9, 9)])))
        kww = {**kw, "w": w}
    else:
        w, kww = 1.0, kw
    Pw = LGP(L.A, b=L.b, y=L.y, mean_i=L.mean, cov_i=L.cov, cov_o=L.obs, alpha=w)
    L1.alpha_arg = w
    x = shaped("map_sol", funs.map_sol(A, b, **kww))
    judge_map(c, L1, x)
    rel, ab = map_slack(L1, map_ref(L1)[1])  # rounding of two ways to write the same
    c.close("map_sol", x, Pw.solve("map"), rtol=1e-8 + rel, atol=1e-11 + ab)
    x, cov = funs.map_sol_with_cov(A, b, **kww)
    judge_map(c, L1, shaped("map_sol_with_cov", x), cov)
    c.close("map_sol_with_cov", cov, Pw.cov_p, rtol=1e-8 + rel)
    if L.rank == L.m:
        x, up = funs.mud_sol_with_cov(A, b, **kw)
        L1.alpha_arg = None
        judge_alt(c, L1, shaped("mud_sol_with_cov", x))
        c.close("mud_sol_with_cov", up, P.updated_cov(), rtol=1e-7 + alt_slack(L))
    elif P.A.shape[0] > 1:  # rank deficient: the same covariance as the class, where it is stable
        L1.alpha_arg = None
        P.solve("mud_alt")
        flip = LGP(L.A[::-1], b=L.b[::-1], y=L.y[::-1], mean_i=L.mean, cov_i=L.cov, cov_o=L.obs[::-1, ::-1])
        want, other = P.updated_cov(), flip.updated_cov()
        if np.abs(want - other).max() < 1e-9 * np.abs(want).max():
            x, up = funs.mud_sol_with_cov(A, b, **kw)
            c.close("mud_sol_with_cov, rank deficient", up, want, rtol=1e-6)
            c.close("mud_sol_with_cov, rank deficient", np.reshape(x, (-1, 1)), P.mud_alt, rtol=1e-6, atol=1e-9)
    Q = funs.lin_prob(A, b, **kw, **({"alpha": w} if chance(rng, 0.7) or w != 1 else {}))
    L1.alpha_arg = w
    LinearMonitor.judge(type("o", (), {"c": c})(), L1, "all", Q.solve("all"))
    c.saw("lin_prob")


@scenario("C15", "mismatch", 1200, 6000, need=["mismatch refused"])
def c15_mismatch(c):
    from mud import funs

    rng = c.rng
    L = Lin(rng, defaults=False)
    k = L.m + int(pick(rng, [1, 2, -1] if L.m > 1 else [1, 2]))
    y = rng.normal(size=k)
    arg, _ = _form15(rng, y)
    L.note(c, k=k)
    for f in (funs.mud_sol, funs.map_sol, funs.map_sol_with_cov, funs.mud_sol_with_cov, funs.lin_prob):
        c.refused("mismatch refused", lambda: f(L.A, L.b, y=arg), ValueError, f.__name__)
    c.refused("mismatch refused", lambda: LGP(L.A, L.b, y=arg), ValueError, "LinearGaussianProblem")


# ------------------------------------------------------------------ C16
rule("C16", "Error maps of random predictions/data in every data form, dtype and size against the formula evaluated in a loop; standard normality of repeated noise draws is tested for several numbers of data.")


@scenario("C16", "formula", 9600, 60000, need=["wme value", "mismatch refused"])
def c16_formula(c):
    from mud.funs import wme

    rng = c.rng
    n, d = int(pick(rng, [1, 2, 7, 60])), int(pick(rng, [1, 2, 3, 10, 200]))
    sc = 10.0 ** rng.integers(-6, 7)
    P = rng.normal(size=(n, d)) * sc + rng.normal() * sc
    data = rng.normal(size=d) * sc
    if chance(rng, 0.15):
        P, data = np.round(P / sc * 5).astype(int), np.round(data / sc * 5).astype(int)
        sc = 1
    elif chance(rng, 0.1):  # predictions in a smaller number format than the data
        kind = pick(rng, [np.int16, np.int32, np.int64, np.float32])
        P, data = (P / sc * 50).astype(kind), data / sc * 50
        sc = 50
    sd = pick(rng, [None, float(rng.uniform(0.01, 3) * sc), 1, np.float64(sc)])
    if sd is None and (d == 1 or np.std(data) < 1e-3 * sc):
        sd = 1.0
    c.note(P=P, data=data, sd=sd)
    darg = gen.form(rng, pick(rng, [data, data.reshape(1, -1), data.reshape(-1, 1)]))
    if chance(rng, 0.2):
        darg = tuple(data.tolist())
    parg = gen.form(rng, P, lists=False)
    if n == 1 and d > 1 and chance(rng, 0.5):
        parg = P[0].copy()
    s = float(np.sqrt(np.mean((data - np.mean(data)) ** 2))) if sd is None else float(sd)
    want = np.array([sum((float(P[i, j]) - float(data[j])) / s for j in range(d)) / np.sqrt(d) for i in range(n)])
    got = wme(parg, darg, sd) if sd is not None or chance(rng, 0.5) else wme(parg, darg)
    c.close("wme value", np.asarray(got).ravel(), want, rtol=1e-9, atol=1e-10 * sc * d / s)
    bad = np.append(data, 0.0) if d == 1 or chance(rng, 0.5) else data[:-1]
    c.refused("mismatch refused", lambda: wme(parg, gen.form(rng, bad), 1.0), ValueError)


@scenario("C16", "large data sets", 48, 600, need=["wme value, large", "spread of the data"])
def c16_large(c):
    """Many samples and data, far from zero compared with their spread."""
    from mud.funs import wme

    rng = c.rng
    n, d = pick(rng, [(300, 1000), (2000, 150), (3, 20000), (1, 5000), (12000, 20), (40, int(rng.integers(300, 3000)))])
    base, sd = rng.normal() * 10.0 ** rng.uniform(0, 3), float(10.0 ** rng.uniform(-3, 0))
    data = base + sd * rng.normal(size=d)
    P = base + 2 * sd * rng.normal(size=(n, d))
    given = sd
    if chance(rng, 0.4):  # the spread of the data, which drift
        data = data + sd * pick(rng, [0, 1, -3]) * np.linspace(0, 1, d)
        given, sd = None, float(np.sqrt(np.mean((data.astype(np.longdouble) - np.mean(data.astype(np.longdouble))) ** 2)))
        c.saw("spread of the data")
    c.note(n=n, d=d, base=base, sd=sd, given=given, data=data[:5], P=P[:2, :5])
    got = np.asarray(wme(P, data if chance(rng, 0.6) else data.tolist(), given)).ravel()
    want = ((P.astype(np.longdouble) - data) / np.longdouble(sd)).sum(axis=1) / np.sqrt(np.longdouble(d))
    c.close("wme value, large", got, want.astype(float), rtol=1e-8, atol=1e-11 * abs(base) / sd * np.sqrt(d) + 1e-10)
    part = np.asarray(wme(P[: n // 2 + 1], data, given)).ravel()
    c.close("wme value, large", part, got[: n // 2 + 1], rtol=1e-8, atol=1e-11 * abs(base) / sd * np.sqrt(d) + 1e-10)


@scenario("C16", "standard normal", 48, 400, need=["standard normal at the truth"])
def c16_normal(c):
    from mud.funs import wme
    from scipy import stats

    rng = c.rng
    d = int(pick(rng, [1, 2, 5, 50, 500]))
    sd = float(10.0 ** rng.uniform(-3, 2))
    truth = rng.normal(size=d) * 5
    reps = 2500
    c.note(d=d, sd=sd)
    v = np.array([float(np.ravel(wme(truth.reshape(1, -1), truth + sd * rng.normal(size=d), sd))[0]) for _ in range(reps)])
    c.check("standard normal at the truth", stats.kstest(v, "norm").pvalue > 1e-9, "mean", v.mean(), "std", v.std(), "for", d, "data")
    c.check("standard normal at the truth", abs(v.mean()) < 7 / np.sqrt(reps) and abs(v.std() - 1) < 7 / np.sqrt(2 * reps), v.mean(), v.std())


# ------------------------------------------------------------------ C17
rule("C17", "Affine maps built by the utility functions and the linear error-map problem, evaluated at random parameters against the error map of the operator's predictions; stacks, noise forms and refusals.")


def _qoi(rng, p):
    """One quantity of interest -> operator, data, sd (as arguments), row function."""
    n = int(pick(rng, [1, 2, 5, 30, 120]))
    rep = chance(rng, 0.5) or n == 1
    M = rng.normal(size=(1 if rep else n, p)) * 10.0 ** (rng.integers(-2, 3) if chance(rng, 0.7) else rng.integers(-7, 8))
    data = rng.normal(size=n) * pick(rng, [3.0, 3.0 * np.abs(M).max()])
    if rep or chance(rng, 0.5):
        sd = float(10.0 ** rng.uniform(-3, 2)) if chance(rng, 0.8) else int(rng.integers(1, 5))
        if chance(rng, 0.1):  # precise instruments
            sd = float(10.0 ** rng.uniform(-13, -3))
        if chance(rng, 0.15):  # numpy scalars
            sd = pick(rng, [np.int64, np.int32])(sd) if isinstance(sd, int) else np.float64(sd)
        sdv = np.full(n, float(sd))
    else:
        sdv = 10.0 ** rng.uniform(-2, 1, n)
        if chance(rng, 0.2):
            sdv = 10.0 ** rng.uniform(-12.9, -3, n)
        sd = pick(rng, [sdv.copy(), sdv.tolist(), tuple(sdv.tolist())])
    rows = np.repeat(M, n, axis=0) if rep else M

    def value(X):
        out = np.zeros(len(X))
        for j in range(n):
            out += (X @ rows[j] - data[j]) / sdv[j]
        return out / np.sqrt(n)

    darg = pick(rng, [data.copy(), data.reshape(-1, 1).copy(), data.reshape(1, -1).copy(), data.tolist()])
    return M, darg, sd, value


@scenario("C17", "maps", 6400, 40000, need=["affine map = error map", "stacked map = error maps", "problem = error maps", "problem solution"])
def c17_maps(c):
    from mud.base import LinearWMEProblem
    from mud.util import transform_linear_map, transform_linear_setup

    rng = c.rng
    p, k = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    q = [_qoi(rng, p) for _ in range(k)]
    X = rng.normal(size=(12, p)) * 2
    want = np.column_stack([f(X) for *_, f in q])
    c.note(ops=[a[0] for a in q], data=[a[1] for a in q], sd=[a[2] for a in q])
    sz = lambda w: 1e-9 * (np.abs(w).max() + 1e-12)
    for (M, d, s, f), w in zip(q, want.T):
        A, b = transform_linear_map(gen.form(rng, M, lists=False), d, s)
        A = np.reshape(A, (-1, p))
        c.check("one row per quantity", A.shape[0] == 1)
        slack = 1e-11 * (np.abs(X @ A.T).max() + abs(float(np.ravel(b)[0])))
        c.close("affine map = error map", (X @ A.T).ravel() + np.ravel(b), w, rtol=1e-9, atol=slack)
    ops, dat, sds = [a[0] for a in q], [a[1] for a in q], [a[2] for a in q]
    if chance(rng, 0.5):
        s0 = pick(rng, [0.3, 2, 1.7, np.int64(3), np.int32(1), np.float64(0.7)])
        q2 = []
        for M, d, _, _ in q:
            dv = np.ravel(d)
            rows = np.repeat(M, len(dv), axis=0) if len(M) == 1 else M
            q2.append(lambda X, rows=rows, dv=dv: sum((X @ rows[j] - dv[j]) / s0 for j in range(len(dv))) / np.sqrt(len(dv)))
        want = np.column_stack([f(X) for f in q2])
        sds = s0
    A, b = transform_linear_setup(ops, dat, sds)
    slack = 1e-11 * (np.abs(X @ np.asarray(A).T).max() + np.abs(b).max())
    c.close("stacked map = error maps", X @ A.T + np.ravel(b), want, rtol=1e-9, atol=slack)
    cov, mean = gen.spd(rng, p, 20), rng.normal(size=p)
    P = LinearWMEProblem(ops, dat, sds, mean_i=mean, cov_i=cov)
    c.close("problem = error maps", X @ P.A.T + P.b.T, want, rtol=1e-9, atol=slack)
    c.close("problem aims at zero", P.y, np.zeros((k, 1)), atol=1e-300)
    # its answers are those of the affine problem
    Ad, bd = np.asarray(A), np.ravel(b)
    s = np.linalg.svd(Ad, compute_uv=False)
    if k <= p and s[-1] > 1e-3 * s[0] and s[0] < 1e6:
        L = Lin(rng, m=k, p=p, rank=k)
        L.A, L.b_arg, L.y_arg, L.mean_arg, L.cov_arg, L.obs_arg, L.alpha_arg, L.rank, L.sc = Ad, bd, None, mean, cov, None, None, k, np.abs(Ad).max()
        judge_mud(c, L, P.solve("mud"), tol=1e-5)
        judge_map(c, L, P.solve("map"))
        c.saw("problem solution")


@scenario("C17", "problem options", 1600, 8000, need=["options reach the problem"])
def c17_options(c):
    from mud.base import LinearWMEProblem

    rng = c.rng
    p, k = int(rng.integers(2, 5)), int(rng.integers(1, 3))
    q = [_qoi(rng, p) for _ in range(k)]
    ops, dat, sds = [a[0] for a in q], [a[1] for a in q], [a[2] for a in q]
    c.note(ops=ops, data=dat)
    X = np.vstack([np.zeros(p), np.eye(p)])
    V = np.column_stack([f(X) for *_, f in q])
    b, A = V[0], (V[1:] - V[0]).T
    s = np.linalg.svd(A, compute_uv=False)
    if s[-1] < 1e-2 * s[0]:
        return
    L = Lin(rng, m=k, p=p, rank=k, defaults=False)
    L.A, L.b_arg, L.rank, L.sc = A, b, k, np.abs(A).max()
    L.obs_arg = gen.spd(rng, k, 30, L.sc**2 * 10.0 ** rng.uniform(-2, 2))
    P = LinearWMEProblem(ops, dat, sds, y=L.y_arg, mean_i=L.mean_arg, cov_i=L.cov_arg, cov_o=L.obs_arg, alpha=L.alpha_arg)
    judge_map(c, L, P.solve("map"), P.cov_p)
    judge_mud(c, L, P.solve("mud"), tol=1e-5)
    c.saw("options reach the problem")


@scenario("C17", "refusals", 1600, 8000, need=["refused"])
def c17_refuse(c):
    from mud.base import LinearWMEProblem
    from mud.util import transform_linear_map, transform_linear_setup

    rng = c.rng
    p, n = int(rng.integers(1, 5)), int(rng.integers(2, 12))
    M, R = rng.normal(size=(n, p)), rng.normal(size=(1, p))
    d = rng.normal(size=n)
    sd = np.full(n, 0.5)
    z = sd.copy()
    z[int(rng.integers(n))] = pick(rng, [0.0, 1e-16, 4e-15])
    k = int(rng.integers(7))
    bad = [
        (M, d, z), (M, d, z.tolist()), (R, d, sd), (R, d, sd.tolist()), (M, d[:-1], 0.5),
        (M, d, sd[:-1]), (pick(rng, [M, R]), d, pick(rng, [0.0, 1e-15, 0])),
    ][k]
    c.note(k=k, n=n, M=M, d=d)
    E = (AssertionError, ValueError)
    c.refused("refused", lambda: transform_linear_map(*bad), E, f"case {k}")
    c.refused("refused", lambda: transform_linear_setup([R, bad[0]], [d, bad[1]], [1.0, bad[2]]), E, f"setup case {k}")
    c.refused("refused", lambda: LinearWMEProblem([R, bad[0]], [d, bad[1]], [1.0, bad[2]]), E, f"problem case {k}")


# ------------------------------------------------------------------ C18
rule("C18", "Iterative chains for random systems, row orders, epochs and repeated calls: every link is recomputed from its predecessor; the class, the function entry point and the epoch helpers are compared.")


def link(a, b, y, x, cov, obs=None, method="mud", alpha=1.0):
    """Single-observation solution from x (independent formulas)."""
    a = a.reshape(-1, 1)
    z = float(y - b - (a.T @ x).item())
    g = cov @ a
    v = (a.T @ g).item()
    if not a.any():
        return x
    if method == "mud":
        return x + g * (z / v)
    return x + g * (z / (v + float(obs)))


def iter_system(rng, p=None, m=None, consistent=False, zeros=True, repeats=True):
    p, m = p or int(rng.integers(1, 5)), m or int(rng.integers(1, 7))
    A = rng.normal(size=(m, p))
    A *= np.exp(rng.uniform(-1, 1, (m, 1)))
    if zeros and chance(rng, 0.3):  # sparse rows, also rows that inform about nothing
        A[rng.random((m, p)) < 0.4] = 0.0
        if chance(rng, 0.3):
            A[int(rng.integers(m))] = 0.0
    if repeats and m > 1 and chance(rng, 0.3):  # the same quantity observed again
        for _ in range(int(rng.integers(1, 3))):
            i = int(rng.integers(m - 1))
            A[i + 1 if chance(rng, 0.7) else int(rng.integers(m))] = A[i] * pick(rng, [1.0, 1.0, -1.0, 2.0])
    x = rng.normal(size=(p, 1)) * 2
    b = rng.normal(size=m)
    y = (A @ x).ravel() + b
    if not consistent:
        y = y + rng.normal(size=m)
    mu = rng.normal(size=p)
    cov = gen.spd(rng, p, 10 ** rng.uniform(0, 2), 10.0 ** rng.uniform(-1, 1))
    obs = np.diag(rng.uniform(0.05, 2, m))
    if chance(rng, 0.3):
        obs = gen.spd(rng, m, 10)
    return dict(A=A, b=b, y=y, mu=mu, cov=cov, obs=obs, x=x, m=m, p=p)


def ILP(*a, **k):
    from mud.base import IterativeLinearProblem

    return IterativeLinearProblem(*a, **k)


def expected_chain(s, order, epochs, method, start, use_cov=True, use_obs=True):
    cov = s["cov"] if use_cov else np.eye(s["p"])
    obs = s["obs"] if use_obs else np.eye(s["m"])
    x = start
    chains = []
    for _ in range(epochs):
        ch = [x]
        for i in order:
            x = link(s["A"][i], s["b"][i], s["y"][i], x, cov, obs[i, i], method)
            ch.append(x)
        chains.append(ch)
    return chains


def same_chains(c, got, want, scale, lab="chain link"):
    c.check("chain structure", len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want)),
            "lengths", [len(g) for g in got], "expected", [len(w) for w in want])
    for e, (a, b) in enumerate(zip(got, want)):
        for i, (u, v) in enumerate(zip(a, b)):
            c.close(lab, np.asarray(u).reshape(-1, 1), v, rtol=1e-7, atol=1e-8 * scale, msg=f"epoch {e} link {i}")


@scenario("C18", "chains", 3200, 20000, need=["chain link", "final point", "continues"])
def c18_chains(c):
    rng = c.rng
    s = iter_system(rng, p=int(rng.integers(5, 16)) if chance(rng, 0.1) else None, m=int(rng.integers(7, 30)) if chance(rng, 0.1) else None)
    method = pick(rng, ["mud", "mud", "map"])
    order = None
    if chance(rng, 0.6):
        order = [int(i) for i in rng.integers(0, s["m"], int(rng.integers(1, 2 * s["m"] + 1)))] if chance(rng, 0.5) else [int(i) for i in rng.permutation(s["m"])]
    use = {k: chance(rng, 0.7) for k in ("mu", "cov", "obs", "b", "y")}
    if not use["b"]:
        s["b"] = np.zeros(s["m"])
    if not use["y"]:
        s["y"] = np.zeros(s["m"])
    c.note(A=s["A"], y=s["y"], b=s["b"], order=order or "default", method=method, use=use)
    col = lambda v: v.copy() if chance(rng, 0.5) else v.reshape(-1, 1).copy()
    arg = order if order is None else pick(rng, [order, np.array(order), tuple(order)])
    A = s["A"].copy() if s["m"] > 1 or chance(rng, 0.5) else s["A"][0].copy()  # one row may be given flat
    P = ILP(A, None if not use["b"] else col(s["b"]), y=col(s["y"]) if use["y"] else None, mu_i=col(s["mu"]) if use["mu"] else None,
            cov=s["cov"].copy() if use["cov"] else None, data_cov=s["obs"].copy() if use["obs"] else None, idx_order=arg)
    start = s["mu"].reshape(-1, 1) if use["mu"] else np.zeros((s["p"], 1))
    rows = list(order) if order is not None else list(range(s["m"]))
    epochs = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4)))]
    want = expected_chain(s, rows, sum(epochs), method, start, use["cov"], use["obs"])
    scale = max(np.abs(v).max() for ch in want for v in ch) + 1
    done = 0
    for k in epochs:
        if done and chance(rng, 0.4):  # another method from where the chain stands
            method = pick(rng, ["mud", "map"])
            want = want[:done] + expected_chain(s, rows, sum(epochs), method, want[done - 1][-1], use["cov"], use["obs"])
            scale = max(np.abs(v).max() for ch in want for v in ch) + 1
            c.saw("method changed")
        kw = {} if method == "mud" and chance(rng, 0.5) else {"method": method}
        out = P.solve(num_epochs=k, **kw) if k > 1 or chance(rng, 0.5) else P.solve(**kw)
        done += k
        c.close("final point", np.asarray(out).reshape(-1, 1), want[done - 1][-1], rtol=1e-7, atol=1e-8 * scale)
        same_chains(c, P.solution_chains, want[:done], scale)
        if done > k:
            c.saw("continues")


@scenario("C18", "entry points agree", 2400, 15000, need=["iter_lin_solve", "performEpoch", "iterate"])
def c18_entry(c):
    from mud import funs

    rng = c.rng
    s = iter_system(rng)
    col = lambda v: v.reshape(-1, 1).copy()
    order = [int(i) for i in rng.integers(0, s["m"], int(rng.integers(1, s["m"] + 3)))] if chance(rng, 0.6) else None
    rows = order if order is not None else list(range(s["m"]))
    k = int(rng.integers(1, 5))
    method = pick(rng, ["mud", "map"])
    c.note(A=s["A"], y=s["y"], order=order or "default", k=k, method=method)
    start = col(s["mu"])
    want = expected_chain(s, rows, k, method, start)
    scale = max(np.abs(v).max() for ch in want for v in ch) + 1
    ek = {} if k == 1 and chance(rng, 0.7) else {"num_epochs": k}  # one epoch is the default
    mk = {} if method == "mud" and chance(rng, 0.5) else {"method": method}
    out = funs.iter_lin_solve(s["A"], s["b"], s["y"], mean=s["mu"], cov=s["cov"], data_cov=s["obs"], idx_order=order, **ek, **mk)
    c.close("iter_lin_solve", np.asarray(out).reshape(-1, 1), want[-1][-1], rtol=1e-7, atol=1e-8 * scale)
    want = expected_chain(s, rows, k, "mud", start)
    scale = max(np.abs(v).max() for ch in want for v in ch) + 1
    same_chains(c, [funs.performEpoch(s["A"], col(s["b"]), col(s["y"]), start, s["cov"], idx=order)], want[:1], scale, "performEpoch")
    flat = funs.iterate(s["A"], col(s["b"]), col(s["y"]), start, s["cov"], idx=order, **ek)
    same_chains(c, [flat], [[v for ch in want for v in ch]], scale, "iterate")


@scenario("C18", "units", 800, 6000, need=["chains: same in other units"])
def c18_units(c):
    """Nothing depends on the units data and parameters are written in."""
    from mud import funs

    rng = c.rng
    q = iter_system(rng)
    s, t = draw_units(rng)
    method = pick(rng, ["mud", "map"])
    k = int(rng.integers(1, 4))
    c.note(A=q["A"], y=q["y"], s=s, t=t, k=k, method=method)
    P = ILP(q["A"] * (s / t), q["b"] * s, q["y"] * s, mu_i=q["mu"] * t, cov=q["cov"] * t**2, data_cov=q["obs"] * s**2)
    out = P.solve(num_epochs=k, method=method)
    want = expected_chain(q, list(range(q["m"])), k, method, q["mu"].reshape(-1, 1))
    size = 1e-8 * (max(np.abs(v).max() for ch in want for v in ch))
    lab = "chains: same in other units"
    for ch, w in zip(P.solution_chains, want):
        for u, v in zip(ch, w):
            c.close(lab, np.reshape(u, (-1, 1)) / t, v, rtol=1e-7, atol=size)
    c.close(lab, np.reshape(out, (-1, 1)) / t, want[-1][-1], rtol=1e-7, atol=size)
    x = funs.iter_lin_solve(q["A"] * (s / t), q["b"] * s, q["y"] * s, mean=q["mu"] * t, cov=q["cov"] * t**2, data_cov=q["obs"] * s**2, num_epochs=k, method=method)
    c.close(lab, np.reshape(x, (-1, 1)) / t, want[-1][-1], rtol=1e-7, atol=size)


@scenario("C18", "links reproduce their datum", 1600, 10000, need=["own observation reproduced", "moves only along its own direction"])
def c18_links(c):
    rng = c.rng
    s = iter_system(rng)
    P = ILP(s["A"], s["b"], s["y"], mu_i=s["mu"], cov=s["cov"], data_cov=s["obs"])
    P.solve(num_epochs=int(rng.integers(1, 4)))
    c.note(A=s["A"], y=s["y"])
    for ch in P.solution_chains:
        for i, (u, v) in enumerate(zip(ch, ch[1:])):
            a = s["A"][i].reshape(-1, 1)
            if not a.any():
                c.same("an empty observation moves nothing", v, u)
                continue
            got = (a.T @ v).item() + s["b"][i]
            c.check("own observation reproduced", abs(got - s["y"][i]) <= 1e-8 * (abs(s["y"][i]) + abs(s["b"][i]) + np.abs(a).max() * np.abs(v).max() + 1), got, s["y"][i])
            d, g = v - u, s["cov"] @ a
            off = d - g * ((g.T @ d).item() / (g.T @ g).item())
            c.check("moves only along its own direction", np.abs(off).max() <= 1e-8 * (np.abs(d).max() + np.abs(v).max()), off)


# ------------------------------------------------------------------ C19
rule("C19", "Iterative chains on consistent systems: distance to exact solutions recomputed after every link; convergence after many epochs; reported errors against the reference of that very request.")


@scenario("C19", "monotone", 3200, 20000, need=["never moves away", "strict decrease"])
def c19_monotone(c):
    rng = c.rng
    s = iter_system(rng, consistent=True)
    order = [int(i) for i in rng.integers(0, s["m"], int(rng.integers(1, 2 * s["m"] + 1)))] if chance(rng, 0.6) else list(range(s["m"]))
    P = ILP(s["A"], s["b"], s["y"], mu_i=s["mu"], cov=s["cov"], data_cov=s["obs"], idx_order=order)
    for _ in range(int(rng.integers(1, 3))):
        P.solve(num_epochs=int(rng.integers(1, 4)))
    c.note(A=s["A"], y=s["y"], order=order)
    # another exact solution, when there is one
    sols = [s["x"]]
    u, sv, vt = np.linalg.svd(s["A"])
    r = int(np.sum(sv > 1e-9 * sv[0]))
    if r < s["p"]:
        sols.append(s["x"] + vt[r:].T @ rng.normal(size=(s["p"] - r, 1)))
    Ci = np.linalg.inv(s["cov"])
    for x in sols:
        D = lambda v: float(((v - x).T @ Ci @ (v - x)).item())
        last = None
        for ch in P.solution_chains:
            if last is not None:
                c.close("epochs connect", ch[0], last, rtol=1e-12, atol=1e-15)
            for i, (u_, v_) in zip(order, zip(ch, ch[1:])):
                a, b_ = D(u_), D(v_)
                c.check("never moves away", b_ <= a + 1e-9 * (a + float((x.T @ Ci @ x).item()) + 1e-12), "distance", a, "->", b_)
                if not s["A"][i].any():
                    continue
                z = s["y"][i] - s["b"][i] - (s["A"][i] @ u_).item()
                drop = z * z / float(s["A"][i] @ s["cov"] @ s["A"][i])
                if drop > 1e-6 * a and a > 1e-12 * float((x.T @ Ci @ x).item() + (u_.T @ Ci @ u_).item()):
                    c.check("strict decrease", b_ < a and abs((a - b_) - drop) <= 1e-6 * a + 1e-9, a, b_, drop)
            last = ch[-1]


@scenario("C19", "converges", 640, 3000, need=["converges to an exact solution"])
def c19_converge(c):
    rng = c.rng
    p = int(rng.integers(1, 4))
    m = int(rng.integers(1, 5))
    s = iter_system(rng, p=p, m=m, consistent=True, zeros=False, repeats=False)
    C = np.linalg.cholesky(s["cov"])
    W = s["A"] @ C
    W /= np.linalg.norm(W, axis=1, keepdims=True)
    # contraction of one sweep on the row space
    M = np.eye(p)
    for w in W:
        M = (np.eye(p) - np.outer(w, w)) @ M
    u, sv, vt = np.linalg.svd(W)
    r = int(np.sum(sv > 1e-9))
    V = vt[:r].T
    rate = np.linalg.norm(V.T @ M @ V, 2)
    if rate > 0.97:
        c.saw("ill conditioned, not judged")
        return
    k = int(np.ceil(np.log(1e-9) / np.log(max(rate, 0.1)))) + 2
    P = ILP(s["A"], s["b"], s["y"], mu_i=s["mu"], cov=s["cov"], data_cov=s["obs"])
    half = k // 2
    P.solve(num_epochs=max(half, 1))
    out = P.solve(num_epochs=k - half + 1)
    c.note(A=s["A"], y=s["y"], rate=float(rate), k=k)
    res = s["A"] @ np.reshape(out, (-1, 1)).ravel() + s["b"] - s["y"]
    size = np.abs(s["y"]).max() + np.abs(s["b"]).max() + np.abs(s["A"]).max() * (np.abs(s["mu"]).max() + np.abs(s["x"]).max())
    c.check("converges to an exact solution", np.abs(res).max() <= 1e-5 * size, "residual", res, "after", k, "epochs")


@scenario("C19", "errors", 1600, 10000, need=["reported errors"])
def c19_errors(c):
    rng = c.rng
    s = iter_system(rng, p=int(rng.integers(5, 24)) if chance(rng, 0.2) else None, m=int(rng.integers(7, 16)) if chance(rng, 0.1) else None)
    order = [int(i) for i in rng.permutation(s["m"])]
    P = ILP(s["A"], s["b"], s["y"], mu_i=s["mu"], cov=s["cov"], idx_order=order)
    c.note(A=s["A"], y=s["y"], order=order)
    for _ in range(int(rng.integers(2, 6))):
        if chance(rng, 0.6) or not P.solution_chains:
            P.solve(num_epochs=int(rng.integers(1, 3)), method=pick(rng, ["mud", "map"]))
        for _ in range(int(rng.integers(1, 3))):
            ref = rng.normal(size=s["p"]) * 3 if chance(rng, 0.7) else s["x"].ravel()
            if chance(rng, 0.25):  # exactly one of the links
                ch = P.solution_chains[int(rng.integers(len(P.solution_chains)))]
                ref = np.array(ch[int(rng.integers(1, len(ch)))]).ravel()
                c.saw("reference is a link")
            arg = pick(rng, [ref.copy(), ref.reshape(-1, 1).copy(), ref.tolist(), ref.reshape(1, -1).copy()])
            got = P.get_errors(arg)
            links = [v for ch in P.solution_chains for v in ch[1:]]
            want = [float(np.sqrt(((np.asarray(v).ravel() - ref) ** 2).sum())) for v in links]
            c.close("reported errors", np.asarray(got, float).ravel(), np.array(want), rtol=1e-9, atol=1e-12)
