"""Reference models: the documented meaning, written independently of mud."""
import numpy as np
from scipy.stats import gaussian_kde


def rows_of(dens, x, **kw):
    """Joint value of a density per row of x (components independent)."""
    v = np.asarray(dens.pdf(x, **kw))
    if v.ndim == 1:
        return v
    out = v[:, 0]
    for j in range(1, v.shape[1]):
        out = out * v[:, j]
    return out


def kde_at(y, w, bw):
    return gaussian_kde(np.asarray(y).T, bw_method=bw, weights=w)(np.asarray(y).T)


def ratio(ob, pr, w):
    r = np.zeros(len(ob))
    pos = pr != 0
    with np.errstate(all="ignore"):
        r[pos] = ob[pos] / pr[pos]
    r[~pos & (ob != 0) & (w != 0)] = np.inf
    r[(np.asarray(w) == 0) & ~np.isfinite(r)] = 0.0
    return r


def updated(inn, w, ob, pr):
    """initial x weight x observed / predicted; undefined -> -1 (never chosen)."""
    up = np.full(len(inn), -1.0)
    pos = pr != 0
    with np.errstate(all="ignore"):
        up[pos] = inn[pos] * w[pos] * ob[pos] / pr[pos]
    up[~pos & (inn > 0) & (np.asarray(w) > 0) & (ob > 0)] = np.inf
    return up


def judge_argmax(c, label, pt, X, val, rtol=1e-9):
    """pt is a complete row of X whose value is (numerically) maximal."""
    pt = np.asarray(pt)
    c.check(label + ": complete sample row", pt.shape == (X.shape[1],), "point", pt, "for samples of shape", X.shape)
    hit = np.flatnonzero((X == pt).all(axis=1))
    c.check(label + ": complete sample row", hit.size > 0, "point", pt, "is not among the samples")
    best = np.max(val)
    if not best > 0:
        c.saw(label + ": nothing positive")
        return
    if np.isfinite(best) and not 1e-280 < best < 1e280:
        c.saw(label + ": underflow, not judged")
        return
    got = np.max(val[hit])
    c.check(
        label + ": maximal",
        got >= best * (1 - rtol) if np.isfinite(best) else np.isinf(got),
        "chosen sample has value", got, "but sample", int(np.argmax(val)), "has", best,
    )
