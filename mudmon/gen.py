"""Workload generators: sample sets, densities, weights, linear problems, forms."""
import numpy as np
from scipy import stats
from scipy.stats import distributions as dist


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def chance(rng, p):
    return bool(rng.random() < p)


def form(rng, a, lists=True):
    """The same values in another representation (memory order, view, list)."""
    a = np.asarray(a)
    k = int(rng.integers(6 if lists else 5))
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:  # every other entry of a larger buffer
        big = np.full(tuple(2 * s for s in a.shape), -7.77 if a.dtype.kind == "f" else 7).astype(a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if k == 3:  # reversed strides
        idx = tuple(slice(None, None, -1) for _ in a.shape)
        return a[idx].copy()[idx]
    if k == 4:
        b = a.copy()
        b.flags.writeable = False
        return b
    if k == 5:
        return a.tolist()
    return a.copy()


class Product:
    """A density object that is not a scipy one: only pdf()."""

    def __init__(self, parts):
        self.parts = parts

    def pdf(self, x):
        x = np.asarray(x)
        return np.column_stack([d.pdf(x[:, j]) for j, d in enumerate(self.parts)])


class Joint:
    """pdf() of a joint density, one value per row."""

    def __init__(self, mean, cov, bump=0.0):
        self.unit = np.sqrt(np.diag(cov))
        self.mean = np.asarray(mean)
        self.rv = stats.multivariate_normal(np.zeros(len(self.unit)), np.asarray(cov) / np.outer(self.unit, self.unit))

    def pdf(self, x):
        return np.atleast_1d(self.rv.pdf((np.asarray(x) - self.mean) / self.unit)) / np.prod(self.unit)


class Scaled:
    """pdf with a keyword argument (scale), independent components."""

    def __init__(self, parts):
        self.parts = parts

    def pdf(self, x, scale=1.0, shift=0.0):
        x = np.asarray(x)
        return np.column_stack([d.pdf((x[:, j] - shift) / scale) / scale for j, d in enumerate(self.parts)])


def n_samples(rng, big=False, lo=8):
    k = rng.random()
    if big and k > 0.985:
        return int(rng.integers(5000, 11000))
    if k < 0.15:
        return int(rng.integers(lo, lo + 6))
    if k < 0.9:
        return int(rng.integers(20, 160))
    return int(rng.integers(160, 900))


def samples(rng, n, p):
    """-> X (n,p), box (p,2) containing it."""
    scale = 10.0 ** rng.integers(-3, 4, p) if chance(rng, 0.25) else rng.uniform(0.3, 3, p)
    loc = rng.normal(size=p) * (scale * 3 if chance(rng, 0.6) else 0.0)
    k = rng.random()
    U = rng.random((n, p))
    if k < 0.6:
        X = loc + scale * U
    elif k < 0.8:
        X = loc + scale * (0.5 + 0.17 * np.clip(rng.normal(size=(n, p)), -2.8, 2.8))
    elif k < 0.9:  # lattice, with repeated values
        X = loc + scale * np.round(U * 7) / 7
    else:
        X = loc + scale * U**3
    box = np.column_stack([loc, loc + scale])
    return np.clip(X, box[:, 0], box[:, 1]), box


def restated(rng, box):
    """A stated domain that is not the range of the samples (it keeps its middle)."""
    w = box[:, 1] - box[:, 0]
    d = len(w)
    k = int(rng.integers(3))
    if k == 0:  # wider
        a, b = -rng.uniform(0.05, 2, d), 1 + rng.uniform(0.05, 2, d)
    elif k == 1:  # narrower
        a, b = rng.uniform(0, 0.4, d), rng.uniform(0.6, 1, d)
    else:
        a, b = rng.uniform(-0.7, 0.4, d), rng.uniform(0.6, 1.7, d)
    return np.column_stack([box[:, 0] + a * w, box[:, 0] + b * w])


def model(rng, X, box, q):
    """Push samples through a random forward map -> y (n,q)."""
    Z = (X - box[:, 0]) / (box[:, 1] - box[:, 0])
    p = Z.shape[1]
    cols = []
    for _ in range(q):
        a = rng.normal(size=p)
        k = int(rng.integers(5))
        if k == 0:
            v = Z @ a
        elif k == 1:
            v = (Z @ a) ** 2 + 0.3 * Z[:, 0]
        elif k == 2:
            v = np.exp(0.8 * (Z @ a))
        elif k == 3:
            v = np.sin(3 * (Z @ a)) + 0.1 * Z[:, -1]
        else:
            v = 2 * Z[:, int(rng.integers(p))] - 1 + 0.01 * (Z @ a)
        cols.append(v + 0.003 * rng.normal(size=len(v)))
    Y = np.column_stack(cols)
    if chance(rng, 0.6):  # standardised residual scale
        Y = (Y - Y[int(rng.integers(len(Y)))]) / rng.uniform(0.05, 2, q)
    return Y


def marginal(rng, lo, hi, inside=None):
    """A frozen scalar density living around [lo, hi]."""
    w = hi - lo
    k = int(rng.integers(6))
    if k == 0:
        return dist.norm(loc=lo + w * rng.uniform(-0.1, 1.1), scale=w * 10 ** rng.uniform(-1.5, 0.5))
    if k == 1:
        a, b = np.sort(rng.uniform(-0.2, 1.2, 2))
        return dist.uniform(loc=lo + a * w, scale=max(b - a, 0.05) * w)
    if k == 2:
        return dist.beta(rng.uniform(1.1, 4), rng.uniform(1.1, 4), loc=lo - 0.01 * w, scale=1.02 * w)
    if k == 3:
        return dist.laplace(loc=lo + w * rng.random(), scale=w * rng.uniform(0.05, 0.6))
    if k == 4:
        return dist.t(df=rng.uniform(2, 9), loc=lo + w * rng.random(), scale=w * rng.uniform(0.05, 0.6))
    return dist.truncnorm(-2, 1.5, loc=lo + w * rng.random(), scale=w * rng.uniform(0.2, 0.6))


def density(rng, box, kind=None):
    """Independent-component density around a box; scipy or a pdf object."""
    lo, hi = box[:, 0], box[:, 1]
    w = hi - lo
    d = len(w)
    k = int(rng.integers(4)) if kind is None else kind
    if k == 0:
        return dist.norm(loc=lo + w * rng.uniform(-0.05, 1.05, d), scale=w * 10 ** rng.uniform(-1.3, 0.3, d))
    if k == 1:
        a = rng.uniform(-0.3, 0.45, d)
        b = rng.uniform(0.55, 1.3, d)
        return dist.uniform(loc=lo + a * w, scale=(b - a) * w)
    if k == 2:
        return Product([marginal(rng, lo[j], hi[j]) for j in range(d)])
    return dist.beta(rng.uniform(1.1, 4, d), rng.uniform(1.1, 4, d), loc=lo - 0.02 * w, scale=1.04 * w)


def ybox(y):
    lo, hi = y.min(axis=0), y.max(axis=0)
    w = np.where(hi > lo, hi - lo, 1.0)
    return np.column_stack([lo, lo + w])


def weights(rng, n, d, zeros=True, stacked=True):
    """Positive-mass weights (at least d+3 positive entries)."""
    k = int(rng.integers(6))
    if k == 0:
        return None
    rows = int(rng.integers(2, 4)) if stacked and chance(rng, 0.3) else 1
    W = rng.uniform(0.05, 3.0, (rows, n)) * 10.0 ** rng.integers(-2, 3)
    if k == 1:
        W = rng.integers(1, 6, (rows, n)).astype(float if chance(rng, 0.5) else int)
        if chance(rng, 0.3):  # counts in large units (an integer product would overflow)
            W = W * (10**9 if W.dtype.kind == "i" else 1e9)
    if zeros and k in (2, 3) and n > d + 8:
        keep = rng.choice(n, size=max(d + 4, int(n * rng.uniform(0.2, 0.9))), replace=False)
        m = np.zeros(n)
        m[keep] = 1
        W[int(rng.integers(rows))] *= m
    return W if rows > 1 or chance(rng, 0.3) else W[0]


def combined(w, n, normalize=False):
    """Documented meaning of a weights argument."""
    if w is None:
        return np.ones(n)
    w = np.asarray(w) * 1.0
    if w.ndim == 2:
        out = np.ones(n)
        for row in w:
            out = out * row
    else:
        out = w * 1.0
    if normalize:
        out = out / np.sqrt(np.sum(out.astype(float) ** 2))
    return out


def bandwidth(rng):
    k = int(rng.integers(6))
    if k == 0:
        return "scott"
    if k == 1:
        return "silverman"
    if k == 2:
        return float(rng.uniform(0.05, 1.2)) if chance(rng, 0.7) else pick(rng, [float(10.0 ** rng.uniform(-3, -1.3)), float(rng.uniform(1.2, 8)), 1, np.float64(0.3)])
    if k == 3:
        f = float(rng.uniform(0.1, 0.9))
        return lambda kde: f * kde.neff ** -0.1
    return None


def orth(rng, n):
    """Random orthogonal matrix: dense, in blocks, or a permutation."""
    k = rng.random()
    if k < 0.7:
        return np.linalg.qr(rng.normal(size=(n, n)))[0]
    Q = np.eye(n)
    if k < 0.9 and n > 1:
        cuts = [0, *np.sort(rng.choice(n - 1, int(rng.integers(1, n)), replace=False) + 1), n]
        for a, b in zip(cuts, cuts[1:]):
            Q[a:b, a:b] = np.linalg.qr(rng.normal(size=(b - a, b - a)))[0]
    return Q[rng.permutation(n)] if chance(rng, 0.5) else Q


def spd(rng, n, cond=1e2, scale=1.0):
    """Covariance: full, correlated in groups only, or diagonal."""
    Q = orth(rng, n)
    ev = np.exp(rng.uniform(0, np.log(cond), n))
    M = (Q * ev) @ Q.T * scale
    return (M + M.T) / 2


def operator(rng, m, p, rank=None):
    """(m,p) operator of given rank (default full), moderately conditioned."""
    r = min(m, p) if rank is None else rank
    U, V = orth(rng, m), orth(rng, p)
    s = np.exp(rng.uniform(-1, 1.5, r))
    return (U[:, :r] * s) @ V[:, :r].T
