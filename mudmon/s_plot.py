"""C31, C32, C39, C40: what plots draw, where, and what they leave alone."""
import itertools
import random

import numpy as np
from scipy.stats import distributions as dist
from scipy.stats import gaussian_kde

from . import gen, ref
from .core import Violated, rule, scenario
from .gen import chance, pick
from .s_density import BP, DP, apply, build, setup
from .s_linear import ILP, LGP, Lin, expected_chain, iter_system, judge_mud, map_ref, mud_ref
from .s_st import Study, snap
from .taps import BayesMonitor, DensityMonitor


def plt():
    from matplotlib import pyplot

    return pyplot


# ----------------------------------------------------------------- oracles
def kde_marginals(kde, box, idx, aff):
    """Marginal over the window by two grids (without / with the right ends)."""
    out = []
    d = len(box)
    for end in (False, True):
        axes = [np.linspace(lo, hi, aff) if end and j != idx else np.linspace(lo, hi, aff)[:-1] for j, (lo, hi) in enumerate(box)]
        pts = np.array(list(itertools.product(*axes))).T
        v = kde(pts).reshape([len(a) for a in axes])
        for j in reversed(range(d)):
            if j != idx:
                v = v.sum(axis=j)
        out.append(v)
    return out


def judge_curve(c, what, line, box, idx, aff, marg, unit=True):
    """`marg(x, aff)` -> list of admissible marginals (any scale) at the plotted points."""
    x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
    lo, hi = box[idx]
    w = hi - lo
    c.check("plotted range", abs(x[0] - lo) <= 1e-9 * w and hi - 1.01 * w / (aff - 1) <= x[-1] <= hi + 1e-9 * w and len(x) in (aff - 1, aff),
            what, "drawn over", x[[0, -1]], "requested", (lo, hi), "points", len(x))
    dx = np.diff(x)
    c.check("plotted range", np.abs(dx - dx[0]).max() <= 1e-6 * w, "uneven")
    ws = [np.asarray(m, float) for m in marg(x)]
    if not all(np.isfinite(m).all() and m.max() > 1e-250 for m in ws):
        c.saw("nothing to draw in the window")
        return
    c.check("non-negative", np.all(y >= 0), what, y.min())
    if unit:
        r, t = np.sum(y) * dx[0], np.trapezoid(y, x) if hasattr(np, "trapezoid") else np.trapz(y, x)
        c.check("unit area", abs(r - 1) < 1e-6 or abs(t - 1) < 1e-6, what, "area", r, t)
    a = y / y.sum()
    b = [m / m.sum() for m in ws]
    top = max(m.max() for m in b)
    slack = 1e-6 * top + (1.5 * np.abs(b[0] - b[1]) + 0.01 * top * (np.abs(b[0] - b[1]).max() > 1e-9 * top) if len(b) > 1 else 0)
    ok = np.abs(a - b[0]) <= slack
    c.check(f"curve: {what}", ok.all(), "drawn", a, "marginal", b[0], "deviation", np.abs(a - b[0]).max() / top)


def kde_marg(kde, box, idx, aff):
    return lambda x: kde_marginals(kde, box, idx, aff)


def by_label(ax, lab):
    return [l for l in ax.lines if l.get_label() == lab]


def judge_marker(c, what, ax, lab, at):
    ls = by_label(ax, lab)
    c.check("marker drawn", len(ls) == 1, what, len(ls))
    xs = np.ravel(np.asarray(ls[0].get_xdata(), float))
    c.check(f"marker: {what}", len(xs) == 2 and np.all(xs == at), "at", xs, "expected", at)


AFF = {1: 80, 2: 40, 3: 14, 4: 8, 5: 6}


def enough(w, d, *pts, k=2.0):
    """Whether a kernel estimate under these weights exists (with some margin)."""
    w = np.asarray(w, float)
    if not (np.isfinite(w).all() and w.sum() > 1e-200 and w.sum() ** 2 / np.sum(w**2) > d + k):
        return False
    for x in pts:
        z = (x - x.mean(axis=0)) / x.std(axis=0)
        if not np.linalg.eigvalsh(np.atleast_2d(np.cov(z.T, aweights=w))).min() > 1e-8:
            return False
    return True


# ------------------------------------------------------------------ C31
rule("C31", "Density and Bayes problems in one to four dimensions after random configuration histories; every drawn curve is compared with the marginal of the density the shadow monitor says is in force (product densities componentwise, kernel estimates by summation over the other axes), markers with the judged estimate.")


def density_problem(rng, p, q, n=None):
    s = setup(rng, n=n or int(rng.integers(4 * (p + q) + 12, 90)), p=p, q=q, ints=False)
    yb = gen.ybox(s["y"])
    w = yb[:, 1] - yb[:, 0]
    s["ob"] = pick(rng, [dist.norm(yb.mean(axis=1) + 0.1 * w, w * rng.uniform(0.2, 0.8, q)),
                         gen.Product([gen.marginal(rng, *b) for b in yb]),
                         dist.uniform(yb[:, 0] - 0.05 * w, w * 0.8), None])
    s["pr"] = pick(rng, [None, None, ("kde", gen.bandwidth(rng), {}), ("given", dist.norm(yb.mean(axis=1), w * rng.uniform(0.3, 0.9, q)), {})])
    s["ini"] = gen.density(rng, s["box"]) if chance(rng, 0.6) else None
    return s


def weights_in_force(mon, D):
    st = dict(mon.state(D))
    mon.fill(st, {})
    inn, ob, pr = mon.values(st)
    r = ref.ratio(ob, pr, st["w"])
    return st, np.asarray(st["w"], float), r


def draw_density_param(c, rng, D, mon, ask=True):
    st, w, r = weights_in_force(mon, D)
    X, p = st["X"], st["X"].shape[1]
    idx, aff = int(rng.integers(p)), AFF[p] if chance(rng, 0.7) else max(5, AFF[p] - 3)
    lo, hi = st["domain"][:, 0], st["domain"][:, 1]
    kw, pad = {}, 0.05
    if chance(rng, 0.3):
        pad = kw["pad_ratio"] = float(pick(rng, [0.0, 0.2, 0.5]))
    box = np.column_stack([lo - pad * (hi - lo), hi + pad * (hi - lo)])
    if chance(rng, 0.3):
        box = np.column_stack([lo - rng.uniform(0, 0.3, p) * (hi - lo), hi + rng.uniform(0, 0.3, p) * (hi - lo)])
        kw["x_range"] = box.copy() if chance(rng, 0.5) else box.tolist()
    opts = {}
    fig, ax = plt().subplots()
    for k in ("in_opts", "up_opts", "win_opts", "mud_opts"):
        if k == "up_opts" and not enough(r * w, p, X) or k == "win_opts" and not enough(w, p, X):
            opts[k] = None
        else:
            opts[k] = {"label": k, "color": pick(rng, ["r", "g", "k"])} if chance(rng, 0.8) else None
    if "true_val" not in kw and chance(rng, 0.6):
        kw["true_val"] = rng.normal(size=p) if chance(rng, 0.6) else rng.normal(size=p).tolist()
        opts["true_opts"] = {"label": "true_opts"} if chance(rng, 0.8) else None
    if idx or chance(rng, 0.5):
        kw["param_idx"] = idx
    if chance(rng, 0.25):
        kw["ylim"] = float(rng.uniform(0.5, 30))
    out = D.plot_param_space(ax=ax, aff=aff, **kw, **opts)
    c.check("axes returned", out is ax)
    want = [k for k in opts if opts[k] is not None]
    c.check("only requested curves", len(ax.lines) == len(want) and sorted(l.get_label() for l in ax.lines) == sorted(want), [l.get_label() for l in ax.lines], want)
    if opts["in_opts"] is not None:
        judge_curve(c, "initial", by_label(ax, "in_opts")[0], box, idx, aff, inside_marg(st["ini"], p, idx, box, aff))
    if opts["up_opts"] is not None:
        judge_curve(c, "updated", by_label(ax, "up_opts")[0], box, idx, aff, kde_marg(gaussian_kde(X.T, weights=r * w), box, idx, aff))
    if opts["win_opts"] is not None:
        judge_curve(c, "weighted initial", by_label(ax, "win_opts")[0], box, idx, aff, kde_marg(gaussian_kde(X.T, weights=w), box, idx, aff))
    if opts["mud_opts"] is not None:
        judge_marker(c, "estimate", ax, "mud_opts", D.estimate()[idx])
    if opts.get("true_opts") is not None:
        judge_marker(c, "reference", ax, "true_opts", kw["true_val"][idx])
    drawn = [k for k in ("mud_opts", "true_opts") if opts.get(k) is not None]
    if "ylim" in kw and drawn:
        c.close("upper limit as requested", ax.get_ylim()[1], kw["ylim"], rtol=1e-9)
        for k in drawn:
            yd = np.asarray(by_label(ax, k)[0].get_ydata(), float)
            c.check("upper limit as requested", np.abs(yd - kw["ylim"]).min() <= 1e-9 * kw["ylim"], "line spans", yd, "up to", kw["ylim"])
    plt().close("all")


def inside_marg(d, dim, idx, box, aff):
    """Marginal of an independent-component density over the window: one coordinate
    varies, the others contribute their mass inside the window."""
    box = np.asarray(box, float)

    def f(x):
        axes = [x if j == idx else np.linspace(*box[j], aff)[:-1] for j in range(dim)]
        k = max(len(a) for a in axes)
        g = np.column_stack([np.resize(a, k) for a in axes])
        v = np.asarray(d.pdf(g))
        v = v.reshape(k, -1)
        mass = 1.0
        for j in range(dim):
            if j != idx:
                mass = mass * v[: len(axes[j]), j].sum()
        return [v[: len(x), idx] * mass]

    return f


def draw_density_obs(c, rng, D, mon):
    st, w, r = weights_in_force(mon, D)
    y, q = st["y"], st["y"].shape[1]
    idx, aff = int(rng.integers(q)), AFF[q]
    lo, hi = y.min(axis=0), y.max(axis=0)
    box = np.column_stack([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)])
    kw = {}
    if chance(rng, 0.5):
        box = np.column_stack([lo - rng.uniform(0, 0.5, q) * (hi - lo), hi + rng.uniform(0, 0.5, q) * (hi - lo)])
        kw["y_range"] = box.copy() if chance(rng, 0.5) else box.tolist()
    opts = {}
    kind, pd, pkw = st["pr"]
    for k in ("ob_opts", "pr_opts", "pf_opts"):
        opts[k] = {"label": k, "color": pick(rng, ["r", "g", "k"])} if chance(rng, 0.8) else None
    if not enough(r * w, q, y):
        opts["pf_opts"] = None
    if kind == "given" and (pkw or not isinstance(pd, type(dist.norm()))):
        opts["pr_opts"] = None
    fig, ax = plt().subplots()
    if idx or chance(rng, 0.5):
        kw["obs_idx"] = idx
    out = D.plot_obs_space(ax=ax, aff=aff, **kw, **opts)
    c.check("axes returned", out is ax)
    want = [k for k in opts if opts[k] is not None]
    c.check("only requested curves", sorted(l.get_label() for l in ax.lines) == sorted(want), [l.get_label() for l in ax.lines], want)
    if opts["ob_opts"] is not None:
        judge_curve(c, "observed", by_label(ax, "ob_opts")[0], box, idx, aff, inside_marg(st["ob"], q, idx, box, aff))
    if opts["pr_opts"] is not None:
        m = inside_marg(pd, q, idx, box, aff) if kind == "given" else kde_marg(gaussian_kde(y.T, bw_method=pd, weights=w), box, idx, aff)
        judge_curve(c, "predicted", by_label(ax, "pr_opts")[0], box, idx, aff, m)
    if opts["pf_opts"] is not None:
        judge_curve(c, "push-forward", by_label(ax, "pf_opts")[0], box, idx, aff, kde_marg(gaussian_kde(y.T, weights=r * w), box, idx, aff))
    plt().close("all")


def judge_scatter(c, ax, xy, lab, colors=None):
    cols = [a for a in ax.collections if len(a.get_offsets()) == len(xy)]
    c.check(lab, len(cols) >= 1, "scatters drawn", len(ax.collections))
    a = cols[0]
    c.same(lab, np.asarray(a.get_offsets(), float), np.asarray(xy, float))
    if colors is not None:
        c.same(lab + " colours", np.asarray(a.get_array(), float).ravel(), colors)


@scenario("C31", "density", 480, 6000, need=["curve: initial", "curve: updated", "curve: weighted initial", "curve: observed", "curve: predicted", "curve: push-forward", "marker: estimate", "marker: reference", "unit area", "upper limit as requested"])
def c31_density(c):
    rng = c.rng
    p, q = int(pick(rng, [1, 1, 2, 2, 3, 4])), int(pick(rng, [1, 1, 2, 2, 3]))
    s = density_problem(rng, p, q)
    c.note(X=s["X"], y=s["y"], w=s["w"] if s["w"] is not None else "none")
    with DensityMonitor(c) as mon:
        D = apply(rng, build(rng, s), s)
        for _ in range(int(rng.integers(1, 4))):
            draw_density_param(c, rng, D, mon) if chance(rng, 0.5) else draw_density_obs(c, rng, D, mon)
            k = int(rng.integers(7))
            yb = gen.ybox(s["y"])
            if k == 0:
                D.set_weights(gen.weights(rng, len(s["y"]), p + q, stacked=False))
            elif k == 1:
                D.set_initial(gen.density(rng, s["box"]))
            elif k == 2:
                D.set_observed(dist.norm(yb.mean(axis=1), (yb[:, 1] - yb[:, 0]) * rng.uniform(0.2, 0.9, q)))
            elif k == 3:
                D.set_predicted(bw_method=gen.bandwidth(rng))
            elif k == 4:
                D.fit()
            elif k == 5:
                D.estimate()
        draw_density_param(c, rng, D, mon)
        draw_density_obs(c, rng, D, mon)
        bad = np.array([[0.0, 1.0]] * (q + 1))
        c.refused("wrong range refused", lambda: D.plot_obs_space(y_range=bad), ValueError)
        plt().close("all")


@scenario("C31", "first call plots", 160, 2000, need=["curve: updated", "curve: observed"])
def c31_first(c):
    """Plots drawn on problems that were never solved, with default options."""
    rng = c.rng
    p, q = int(pick(rng, [1, 2, 3])), int(pick(rng, [1, 2]))
    s = density_problem(rng, p, q)
    s["w"] = None
    yb = gen.ybox(s["y"])
    w_ = yb[:, 1] - yb[:, 0]
    s["ob"] = dist.norm(yb.mean(axis=1), w_ * 0.4)
    s["pr"] = None
    c.note(X=s["X"], y=s["y"])
    with DensityMonitor(c) as mon:
        D = build(rng, s)
        D.set_observed(s["ob"])
        st, w, r = weights_in_force(mon, D)
        if not enough(r * w, p + q, s["X"], s["y"], k=4):
            return
        fig, ax = plt().subplots()
        aff = AFF[p]
        D.plot_param_space(ax=ax, aff=aff)
        lo, hi = st["domain"].T
        box = np.column_stack([lo - 0.05 * (hi - lo), hi + 0.05 * (hi - lo)])
        c.check("default curves", len(ax.lines) == 3, len(ax.lines))
        judge_curve(c, "initial", ax.lines[0], box, 0, aff, inside_marg(st["ini"], p, 0, box, aff))
        judge_curve(c, "updated", ax.lines[1], box, 0, aff, kde_marg(gaussian_kde(st["X"].T, weights=r * w), box, 0, aff))
        c.check("marker: estimate", np.all(np.asarray(ax.lines[2].get_xdata()) == D.estimate()[0]))
        with DensityMonitor(c) as mon2:
            D = build(rng, s)
            D.set_observed(s["ob"])
            fig, ax = plt().subplots()
            aff = AFF[q]
            D.plot_obs_space(ax=ax, aff=aff)
            y = st["y"]
            lo, hi = y.min(axis=0), y.max(axis=0)
            box = np.column_stack([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)])
            c.check("default curves", len(ax.lines) == 3, len(ax.lines))
            judge_curve(c, "observed", ax.lines[0], box, 0, aff, inside_marg(s["ob"], q, 0, box, aff))
            judge_curve(c, "predicted", ax.lines[1], box, 0, aff, kde_marg(gaussian_kde(y.T), box, 0, aff))
            judge_curve(c, "push-forward", ax.lines[2], box, 0, aff, kde_marg(gaussian_kde(y.T, weights=r), box, 0, aff))


@scenario("C31", "bayes", 320, 4000, need=["curve: prior", "curve: posterior", "curve: likelihood", "curve: posterior push-forward", "marker: MAP", "marker: reference"])
def c31_bayes(c):
    rng = c.rng
    p, q = int(pick(rng, [1, 1, 2, 3])), int(pick(rng, [1, 2, 2, 3]))
    n = int(rng.integers(20, 80))
    X, box0 = gen.samples(rng, n, p)
    y = gen.model(rng, X, box0, q)
    dom = box0 if chance(rng, 0.5) else None
    c.note(X=X, y=y)
    yb = gen.ybox(y)
    w = yb[:, 1] - yb[:, 0]
    with BayesMonitor(c) as mon:
        B = BP(gen.form(rng, X), gen.form(rng, y), dom)
        for _ in range(int(rng.integers(1, 4))):
            ll = dist.norm(yb.mean(axis=1) + 0.2 * w * rng.normal(size=q), w * rng.uniform(0.3, 1, q))
            B.set_likelihood(ll, log=chance(rng, 0.5))
            if chance(rng, 0.5):
                B.set_prior(pick(rng, [None, gen.density(rng, box0, kind=0), gen.density(rng, box0, kind=2)]))
            st = dict(mon.state(B))
            mon.fill(st)
            lp = mon.logpost(st)
            if not lp.max() > -300:
                return
            if chance(rng, 0.4):
                B.estimate()
            pw = np.exp(lp - lp.max())
            if not enough(pw, p + q, X, y):
                continue
            idx, aff = int(rng.integers(p)), AFF[p]
            box, kw = st["domain"], {}
            if chance(rng, 0.4):
                d = box0[:, 1] - box0[:, 0]
                box = np.column_stack([box0[:, 0] - 0.2 * d * rng.random(p), box0[:, 1] + 0.2 * d * rng.random(p)])
                kw["x_range"] = box.copy()
            opts = {k: {"label": k} if chance(rng, 0.8) else None for k in ("pr_opts", "ps_opts", "map_opts")}
            if chance(rng, 0.5):
                kw["true_val"] = rng.normal(size=p)
                opts["true_opts"] = {"label": "true_opts"} if chance(rng, 0.75) else None
            fig, ax = plt().subplots()
            B.plot_param_space(param_idx=idx, ax=ax, aff=aff, **kw, **opts)
            want = [k for k in opts if opts[k] is not None]
            c.check("only requested curves", sorted(l.get_label() for l in ax.lines) == sorted(want), [l.get_label() for l in ax.lines], want)
            if opts["pr_opts"]:
                judge_curve(c, "prior", by_label(ax, "pr_opts")[0], box, idx, aff, inside_marg(st["pr"], p, idx, box, aff))
            if opts["ps_opts"]:
                judge_curve(c, "posterior", by_label(ax, "ps_opts")[0], box, idx, aff, kde_marg(gaussian_kde(X.T, weights=pw), box, idx, aff))
            if opts["map_opts"]:
                judge_marker(c, "MAP", ax, "map_opts", B.map_point()[idx])
            if opts.get("true_opts"):
                judge_marker(c, "reference", ax, "true_opts", kw["true_val"][idx])
            B.fit()
            oi, aff = int(rng.integers(q)), AFF[q]
            ybox, kw = np.array([[-1.0, 1.0]] * q), {}
            if chance(rng, 0.7):
                ybox = np.column_stack([yb[:, 0] - 0.2 * w * rng.random(q), yb[:, 1] + 0.2 * w * rng.random(q)])
                kw["y_range"] = ybox.copy() if chance(rng, 0.5) else ybox.tolist()
            fig, ax = plt().subplots()
            opts = {k: {"label": k} if chance(rng, 0.8) else None for k in ("ll_opts", "pf_opts")}
            B.plot_obs_space(obs_idx=oi, ax=ax, aff=aff, **kw, **opts)
            want = [k for k in opts if opts[k] is not None]
            c.check("only requested curves", sorted(l.get_label() for l in ax.lines) == sorted(want), [l.get_label() for l in ax.lines], want)
            if opts["ll_opts"]:
                judge_curve(c, "likelihood", by_label(ax, "ll_opts")[0], ybox, oi, aff, inside_marg(ll, q, oi, ybox, aff), unit=False)
            if opts["pf_opts"]:
                judge_curve(c, "posterior push-forward", by_label(ax, "pf_opts")[0], ybox, oi, aff, kde_marg(gaussian_kde(y.T, weights=pw), ybox, oi, aff), unit=False)
            plt().close("all")


@scenario("C31", "scatter", 320, 4000, need=["observable scatter", "parameter scatter", "parameter scatter colours", "impossible index refused", "colour bar as requested", "contours follow the observable"])
def c31_scatter(c):
    rng = c.rng
    p, q = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    s = setup(rng, n=int(rng.integers(12, 60)), p=p, q=q, weighted=False, ints=False)
    X, y = s["X"], s["y"]
    c.note(X=X, y=y)
    D = build(rng, s)
    if q > 1:
        i, j = (int(v) for v in rng.choice(q, 2))
        fig, ax = plt().subplots()
        D.plot_qoi(i, j, ax=ax) if chance(rng, 0.5) else D.plot_qoi(idx_x=i, idx_y=j, ax=ax, color="r")
        judge_scatter(c, ax, y[:, [i, j]], "observable scatter")
        fig, ax = plt().subplots()
        judge_scatter(c, D.plot_qoi(), y[:, :2], "observable scatter")
    else:
        c.saw("observable scatter", 0)
    E = (AttributeError, ValueError, IndexError)
    if p > 1:
        i, j, k = int(rng.integers(p)), int(rng.integers(p)), int(rng.integers(q))
        fig, ax = plt().subplots()
        con = chance(rng, 0.4) and len(set(X[:, i])) > 5 and len(set(X[:, j])) > 5 and i != j and len(np.unique(np.round(X[:, [i, j]], 12), axis=0)) == len(X)
        kw = {}
        col = y[:, k]
        if chance(rng, 0.3):
            col = rng.random(len(X))
            kw["c"] = col.copy()
        if chance(rng, 0.3):
            kw["s"] = 3
        bar = pick(rng, [True, False, None])
        if bar is not None:
            kw["colorbar"] = bar
        D.plot_params_2d(i, j, k, ax=ax, contours=con, **kw)
        judge_scatter(c, ax, X[:, [i, j]], "parameter scatter", col)
        c.check("colour bar as requested", len(fig.axes) == 1 + (bar is not False), bar, len(fig.axes))
        sets = [a for a in ax.collections if hasattr(a, "levels")]
        c.check("contours as requested", len(sets) == bool(con), con, len(sets))
        for cs in sets:
            from matplotlib import tri

            sc = np.array([np.ptp(X[:, i]), np.ptp(X[:, j])])
            T = tri.LinearTriInterpolator(tri.Triangulation(X[:, i], X[:, j]), y[:, k])
            off = []
            for lev, path in zip(cs.levels, cs.get_paths()):
                v = np.asarray(path.vertices, float)
                if len(v):
                    lo, hi = X[:, [i, j]].min(axis=0), X[:, [i, j]].max(axis=0)
                    c.check("contours follow the observable", np.all(v >= lo - 1e-9 * sc) and np.all(v <= hi + 1e-9 * sc), "contour outside the samples", v)
                    mid = X[:, [i, j]].mean(axis=0)
                    z = np.ma.filled(T(*(mid + (v - mid) * (1 - 1e-9)).T), np.nan)
                    off += [*np.abs(z[np.isfinite(z)] - lev)]
            if len(off) > 4:
                c.check("contours follow the observable", np.median(off) <= 1e-4 * np.ptp(y[:, k]), "distance from the level", np.median(off))
        judge_scatter(c, D.plot_params_2d(), X[:, :2], "parameter scatter", y[:, 0])
        c.refused("impossible index refused", lambda: D.plot_params_2d(x_1=p), E)
        c.refused("impossible index refused", lambda: D.plot_params_2d(x_2=p + 1), E)
        c.refused("impossible index refused", lambda: D.plot_params_2d(y=q), E)
    else:
        c.refused("impossible index refused", lambda: D.plot_params_2d(), E)


@scenario("C31", "plot_dist", 320, 4000, need=["curve: function density", "curve: function kernel estimate"])
def c31_plot_dist(c):
    from mud.plot import plot_dist, plot_vert_line

    rng = c.rng
    d = int(pick(rng, [1, 2, 3, 4]))
    aff = AFF[d]
    lo = rng.normal(size=d) * 3
    box = np.column_stack([lo, lo + rng.uniform(0.5, 4, d)])
    idx = int(rng.integers(d))
    c.note(box=box, idx=idx)
    D = gen.density(rng, box, kind=int(rng.integers(3)))
    fig, ax = plt().subplots()
    plot_dist(D, box if chance(rng, 0.5) else box.tolist(), ax=ax, idx=idx, source="pdf", aff=aff, label="a")
    judge_curve(c, "function density", ax.lines[0], box, idx, aff, inside_marg(D, d, idx, box, aff))
    X = box[:, 0] + rng.random((60, d)) * (box[:, 1] - box[:, 0])
    w = rng.uniform(0.1, 2, 60)
    kde = gaussian_kde(X.T, weights=w)
    fig, ax = plt().subplots()
    plot_dist(kde, box, ax=ax, idx=idx, aff=aff)
    judge_curve(c, "function kernel estimate", ax.lines[0], box, idx, aff, kde_marg(kde, box, idx, aff))
    c.refused("unknown source refused", lambda: plot_dist(kde, box, source="other", aff=5), ValueError)
    fig, ax = plt().subplots()
    x = float(rng.normal())
    ax.plot([-1, 2], [0, 5])
    yl = ax.get_ylim()
    top = pick(rng, [None, 3.5])
    plot_vert_line(ax, x, ylim=top, label="v")
    l = by_label(ax, "v")[0]
    c.check("marker: reference", np.all(np.ravel(l.get_xdata()) == x), l.get_xdata(), x)
    c.close("vertical extent", np.asarray(l.get_ydata(), float), np.array([yl[0], top if top is not None else yl[1]]), rtol=1e-9)


# ------------------------------------------------------------------ C32
rule("C32", "Every plotting call of every problem kind under an artist and state sanitizer: all figures and axes are inventoried before and after (decoy figures stay current), problems and caller-owned options are digested, repetitions must draw the same artists.")


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4]), random.getstate()


def inventory():
    """axes object -> number of drawn artists, over all open figures."""
    P = plt()
    out = {}
    for num in P.get_fignums():
        f = P.figure(num)
        for a in f.axes:
            out[id(a)] = (a, len(a.lines) + len(a.collections) + len(a.texts) + len(a.patches) + len(a.images),
                          (a.get_xlabel(), a.get_ylabel(), a.get_title(), a.get_legend() is None, a.get_xlim(), a.get_ylim(), a.get_xscale(), a.get_yscale()))
    return out


def on_figures():
    """number -> what is drawn on the figure itself, outside its axes."""
    P = plt()
    out = {}
    for num in P.get_fignums():
        f = P.figure(num)
        out[num] = (f._suptitle.get_text() if f._suptitle is not None else None, [t.get_text() for t in f.texts], len(f.legends), len(f.lines),
                    len(f.patches), len(f.images), len(f.artists))
    return out


def drawn(ax):
    """Comparable description of what is drawn on an axes."""
    out = []
    for l in ax.lines:
        out.append(("line", l.get_label(), np.asarray(l.get_xydata(), float), str(l.get_color()), l.get_linestyle()))
    for k in ax.collections:
        out.append(("coll", k.get_label(), np.asarray(np.ma.filled(k.get_offsets(), np.nan), float), [np.asarray(q.vertices, float) for q in k.get_paths()]))
    for t in ax.texts:
        out.append(("text", t.get_text(), np.ravel(np.asarray(t.xy if hasattr(t, "xy") else t.get_position(), float)), ""))
    return out


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return a is b or a == b


def copied(v):
    if hasattr(v, "pdf"):
        return v
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    import copy

    return copy.deepcopy(v)


def settings_kept(c, what, style):
    """Global plotting settings are those before the call."""
    now = dict(plt().rcParams)
    bad = [k for k in style if not equal(style[k], now.get(k))]
    c.check("plot settings left alone", not bad and len(now) == len(style), what, "changed", [(k, style[k], now.get(k)) for k in bad[:4]])


def plot_call(c, rng, what, fn, kw, ax_arg=True, colorbar=False, unit=None):
    """Run fn(**kw) on a given axes with a decoy figure current; then on its own axes."""
    P = plt()
    keep = copied(kw)
    shots = []
    for rep in range(2):
        P.close("all")
        fig, ax = P.subplots()
        side, (a2, a3) = P.subplots(1, 2)
        decoy, dax = P.subplots()
        if chance(rng, 0.5):
            P.figure(side.number)  # something else is current
        nums = set(P.get_fignums())
        before = inventory()
        figs = on_figures()
        np.random.seed(4)
        dice = rng_state()
        style = dict(P.rcParams)
        fn(ax=ax, **kw)
        c.check("random state untouched", rng_state() == dice, what, "consumed or reseeded global random numbers")
        settings_kept(c, what, style)
        after = inventory()
        c.check("no figure opened or closed", set(P.get_fignums()) == nums, what, nums, P.get_fignums())
        now = on_figures()
        c.check("nothing drawn elsewhere", now == figs, what, "drew on a figure outside the given axes", figs, "->", now)
        for i, (a, k, look) in after.items():
            if a is ax:
                continue
            if i in before:
                c.check("nothing drawn elsewhere", before[i][1] == k, what, "drew on another axes")
                c.check("nothing drawn elsewhere", before[i][2] == look, what, "changed labels or limits of another axes from", before[i][2], "to", look)
            else:
                c.check("nothing drawn elsewhere", a.figure is fig and colorbar, what, "opened axes on", "the given figure" if a.figure is fig else "another figure")
        c.check("drawn on the given axes", after[id(ax)][1] > 0 or what.endswith("(nothing)"), what, "drew nothing on the given axes")
        for k in keep:
            c.check("options left alone", equal(kw[k], keep[k]), what, "changed its argument", k, "from", keep[k], "to", kw[k])
        shots.append(drawn(ax))
        P.close("all")
    c.check("repetition draws the same", equal(shots[0], shots[1]), what, "first", shots[0], "then", shots[1])
    # own axes
    decoy, dax = P.subplots()
    dax.plot([0, 1], [0, 1])
    nums = set(P.get_fignums())
    np.random.seed(4)
    style = dict(P.rcParams)
    fn(**kw)
    settings_kept(c, what, style)
    new = set(P.get_fignums()) - nums
    c.check("new axes when none given", len(new) == 1, what, "opened", sorted(new))
    c.check("nothing drawn elsewhere", inventory()[id(dax)][1] == 1 and len(decoy.axes) == 1, what, "drew on an existing figure")
    own = P.figure(new.pop()).axes[0]
    c.check("same drawing on own axes", equal(drawn(own), shots[0]) or len(drawn(own)) == len(shots[0]), what)
    P.close("all")


def state_density(D):
    return {k: copied(getattr(D, k)) for k in ("X", "y", "domain")} | {"est": D.estimate().copy(), "ratio": float(D.expected_ratio()), "w": copied(D._weights) if hasattr(D, "_weights") else None}


@scenario("C32", "density", 96, 1200, need=["nothing drawn elsewhere", "options left alone", "problem unchanged", "suppressed curves absent"])
def c32_density(c):
    rng = c.rng
    p, q = int(pick(rng, [1, 2, 2])), int(pick(rng, [1, 2]))
    s = density_problem(rng, p, q)
    s["pr"] = None
    own = {"X": s["X"].copy(), "y": s["y"].copy(), "d": s["box"].copy(), "w": None if s["w"] is None else s["w"].copy()}
    D = DP(own["X"], own["y"], own["d"], weights=own["w"])
    if s["ini"] is not None:
        D.set_initial(s["ini"])
    yb = gen.ybox(s["y"])
    D.set_observed(dist.norm(yb.mean(axis=1), (yb[:, 1] - yb[:, 0]) * 0.5))
    c.note(X=s["X"], y=s["y"])
    from .taps import DensityMonitor as M

    inn = np.ones(len(s["y"]))
    w = gen.combined(s["w"], len(s["y"]))
    obv = ref.rows_of(dist.norm(yb.mean(axis=1), (yb[:, 1] - yb[:, 0]) * 0.5), s["y"])
    r = obv / ref.kde_at(s["y"], w, None)
    if not (enough(r * w, p + q, s["X"], s["y"]) and enough(w, p + q, s["X"])):
        c.saw("concentrated, not plotted")
        return
    before = state_density(D)
    keep = copied(own)
    o = lambda z=0.75: {"label": "curve", "linewidth": 2} if chance(rng, z) else pick(rng, [None, {}])
    for _ in range(3):
        k = int(rng.integers(4))
        if k == 0:
            kw = {n: o() for n in ("in_opts", "up_opts", "win_opts", "mud_opts")}
            kw.update(param_idx=int(rng.integers(p)), aff=8 if p > 1 else 20)
            if chance(rng, 0.6):
                kw["true_val"] = rng.random(p)
                kw["true_opts"] = pick(rng, [{"color": "m"}, {"color": "m"}, None])
            if chance(rng, 0.5):
                kw["x_range"] = s["box"].copy() if chance(rng, 0.5) else s["box"].tolist()
            if chance(rng, 0.3):
                kw["ylim"] = 3.0
            n = sum(kw[n] is not None for n in ("in_opts", "up_opts", "win_opts", "mud_opts")) + (kw.get("true_opts") is not None)
            fn, what = D.plot_param_space, "plot_param_space"
        elif k == 1:
            kw = {n: (o(1) if chance(rng, 0.75) else None) for n in ("ob_opts", "pr_opts", "pf_opts")}
            kw.update(obs_idx=int(rng.integers(q)), aff=8 if q > 1 else 20)
            if chance(rng, 0.5):
                kw["y_range"] = yb.copy() if chance(rng, 0.5) else yb.tolist()
            n = sum(kw[n] is not None for n in ("ob_opts", "pr_opts", "pf_opts"))
            fn, what = D.plot_obs_space, "plot_obs_space"
        elif k == 2 and q > 1:
            kw, fn, what, n = {"idx_x": 1, "idx_y": 0, "s": 4}, D.plot_qoi, "plot_qoi", 1
        elif k == 3 and p > 1:
            kw, fn, what, n = {"x_1": 1, "x_2": 0, "colorbar": chance(rng, 0.5), "contours": chance(rng, 0.5)}, D.plot_params_2d, "plot_params_2d", 1
            if chance(rng, 0.5):
                kw["c"] = rng.random(len(s["X"]))
        else:
            continue
        plot_call(c, rng, what if n else what + " (nothing)", fn, kw, colorbar=True)
        if k < 2:
            fig, ax = plt().subplots()
            fn(ax=ax, **kw)
            c.check("suppressed curves absent", len(ax.lines) == n, what, len(ax.lines), "lines for", n, "requested")
            plt().close("all")
        after = state_density(D)
        for f in before:
            c.check("problem unchanged", equal(after[f], before[f]), what, "changed", f, before[f], after[f])
        for f in keep:
            c.check("problem unchanged", equal(own[f], keep[f]), what, "changed the caller's", f)


@scenario("C32", "bayes", 64, 800, need=["nothing drawn elsewhere", "options left alone", "problem unchanged", "suppressed curves absent"])
def c32_bayes(c):
    rng = c.rng
    p, q = int(pick(rng, [1, 2])), int(pick(rng, [1, 2]))
    n = int(rng.integers(20, 60))
    X = rng.random((n, p))
    y = X @ rng.normal(size=(p, q)) + 0.1 * rng.normal(size=(n, q))
    dom = np.array([[0.0, 1.0]] * p)
    own = {"X": X, "y": y, "d": dom}
    keep = copied(own)
    B = BP(X, y, dom)
    B.set_likelihood(dist.norm(y.mean(axis=0), y.std(axis=0) + 0.05), log=chance(rng, 0.5))
    if chance(rng, 0.5):
        B.set_prior(dist.beta(np.full(p, 2.0), np.full(p, 2.0)))
    B.fit()
    c.note(X=X, y=y)
    stt = lambda: {"X": copied(B.X), "y": copied(B.y), "d": copied(B.domain), "est": B.map_point().copy()}
    before = stt()
    o = lambda: {"label": "curve", "linewidth": 2} if chance(rng, 0.75) else pick(rng, [None, {}])
    for _ in range(2):
        if chance(rng, 0.5):
            names = ("pr_opts", "ps_opts", "map_opts")
            kw = {n: o() for n in names} | {"param_idx": int(rng.integers(p)), "aff": 9}
            if chance(rng, 0.5):
                kw["true_val"] = rng.random(p)
                kw["true_opts"] = pick(rng, [{"color": "m"}, {"color": "m"}, None])
            if chance(rng, 0.4):
                kw["x_range"] = dom * 1.1
            fn, what = B.plot_param_space, "Bayes plot_param_space"
        else:
            names = ("ll_opts", "pf_opts")
            kw = {n: o() for n in names} | {"obs_idx": int(rng.integers(q)), "aff": 9, "y_range": pick(rng, [gen.ybox(y), gen.ybox(y).tolist()])}
            fn, what = B.plot_obs_space, "Bayes plot_obs_space"
        k = sum(kw[n] is not None for n in names) + (kw.get("true_opts") is not None)
        plot_call(c, rng, what if k else what + " (nothing)", fn, kw)
        fig, ax = plt().subplots()
        fn(ax=ax, **kw)
        c.check("suppressed curves absent", len(ax.lines) == k, what, len(ax.lines), k)
        plt().close("all")
        after = stt()
        for f in before:
            c.check("problem unchanged", equal(after[f], before[f]), what, "changed", f)
        for f in keep:
            c.check("problem unchanged", equal(own[f], keep[f]), what, "changed the caller's", f)


@scenario("C32", "linear", 96, 1200, need=["nothing drawn elsewhere", "options left alone", "problem unchanged"])
def c32_linear(c):
    rng = c.rng
    L = Lin(rng, m=int(rng.integers(1, 4)), p=2, full_row=chance(rng, 0.6) and False, defaults=False)
    L.note(c)
    own = dict(A=L.A.copy(), b=L.b_arg.reshape(-1, 1), y=L.y_arg.reshape(-1, 1), mean_i=L.mean_arg.reshape(-1, 1), cov_i=L.cov_arg.copy(), cov_o=L.obs_arg.copy())
    keep = copied(own)
    P = LGP(**own, alpha=L.alpha_arg)
    answers = lambda: {m: P.solve(m).copy() for m in ("mud", "map", "ls")}
    before = answers()
    calls = [
        ("plot_sol", P.plot_sol, lambda: dict(point=pick(rng, ["mud", "map", "ls", "initial"]), label=pick(rng, [None, "L"]), note_loc=pick(rng, [None, [0.1, 0.2]]),
                                              pt_opts={"color": "r", "s": 20}, ln_opts=pick(rng, [None, {"color": "k"}]), annotate_opts={"fontsize": 9})),
        ("plot_sol defaults", P.plot_sol, lambda: {}),
        ("plot_contours", P.plot_contours, lambda: dict(ref=rng.random((2, 1)) if chance(rng, 0.6) else None, subset=pick(rng, [None, [0]]), annotate=chance(rng, 0.5),
                                                       note_loc=pick(rng, [None, [0.1, 0.2]]), plot_opts={"color": "r"}, annotate_opts={"fontsize": 9})),
        ("plot_contours defaults", P.plot_contours, lambda: {}),
    ]
    if L.rank == L.m:
        calls.append(("plot_fun_contours", P.plot_fun_contours, lambda: dict(terms=pick(rng, ["dc", "bayes", "reg", "data", "reg_m", "dc_term"]), N=9, r=pick(rng, [1, 2]), levels=4)))
    for _ in range(2):
        what, fn, mk = pick(rng, calls)
        plot_call(c, rng, what, fn, mk())
        after = answers()
        for m in before:
            c.check("problem unchanged", equal(after[m], before[m]), what, "changed", m)
        for f in keep:
            c.check("problem unchanged", equal(own[f], keep[f]), what, "changed the caller's", f)
    s = iter_system(rng, p=2, m=int(rng.integers(1, 4)))
    I = ILP(s["A"], s["b"], s["y"], mu_i=s["mu"], cov=s["cov"])
    I.solve(num_epochs=2)
    ch = copied(I.solution_chains)
    rp = rng.random((2, 1))
    e0 = list(I.get_errors(rp))
    for what, fn, kw in (("plot_chain", I.plot_chain, {"ref_param": rp, "color": "g", "s": 9}), ("plot_chain_error", I.plot_chain_error, {"ref_param": rp, "alpha": 0.5, "label": "x"})):
        plot_call(c, rng, what, fn, kw)
        c.check("problem unchanged", equal(I.solution_chains, ch), what)
        c.check("problem unchanged", list(I.get_errors(rp)) == e0, what)


@scenario("C32", "spatio-temporal", 64, 800, need=["nothing drawn elsewhere", "options left alone", "problem unchanged"])
def c32_st(c):
    from mud import plot

    rng = c.rng
    w = Study(rng, S=int(rng.integers(4, 9)), T=int(rng.integers(2, 7)))
    w.sensors = rng.random((w.S, 2))
    st = w.build(rng)
    w.note(c)
    before = snap(st)
    m = np.sort(rng.permutation(w.S)[: int(rng.integers(3, w.S + 1))])
    calls = [
        ("plot_ts", st.plot_ts, dict(sensor_idx=int(rng.integers(w.S)), max_plot=int(rng.integers(1, 20)), meas_kwargs={"color": "g"}, samples_kwargs={"lw": 0.5}, alpha=0.3)),
        ("plot_ts defaults", st.plot_ts, {}),
        ("plot_ts selected", st.plot_ts, dict(samples=[0, 1], times=np.arange(w.T) % 2 == 0)),
        ("sensor_scatter_plot", st.sensor_scatter_plot, dict(mask=pick(rng, [None, m]), colorbar=None, s=4)),
        ("sensor_scatter_plot colorbar", st.sensor_scatter_plot, dict(colorbar=True, c=rng.random(w.S))),
        ("sensor_contour_plot", st.sensor_contour_plot, dict(c_vals=rng.random(w.S), fill=chance(rng, 0.5), colorbar=chance(rng, 0.5))),
        ("plot_1D_vecs", plot.plot_1D_vecs, dict(vecs=[rng.random(5), rng.random(5)], markers=pick(rng, [None, ["o", "x"]]), label=chance(rng, 0.5))),
        ("plot_dist", plot.plot_dist, dict(dist=dist.norm([0.3, 0.1], [1.0, 2.0]), domain=pick(rng, [[[0, 1], [0, 2]], np.array([[0.0, 1.0], [0.0, 2.0]])]), idx=1, source="pdf", aff=9)),
    ]
    for i in rng.permutation(len(calls))[:3]:
        what, fn, kw = calls[i]
        plot_call(c, rng, what, fn, kw, colorbar=True)
        for f, v in before.items():
            c.check("problem unchanged", equal(getattr(st, f), v) or np.array_equal(np.asarray(getattr(st, f)), np.asarray(v)), what, f)
    c.saw("problem unchanged")


# ------------------------------------------------------------------ C39
rule("C39", "Two-parameter linear problems (random operators, offsets, row subsets, references in several forms, windows) and iterative chains; the data of every line, marker and contour level are compared with the problem's geometry.")


@scenario("C39", "solutions and contours", 480, 8000, need=["marker: mud", "marker: map", "marker: ls", "marker: initial", "joining line", "line through reference", "line in the level set", "level set of the problem"])
def c39_lin(c):
    rng = c.rng
    L = Lin(rng, m=int(rng.integers(1, 5)), p=2, defaults=chance(rng, 0.7))
    c.saw("rows", L.m)
    L.note(c)
    if np.linalg.norm(L.A, axis=1).min() < 1e-9 * L.sc:
        return
    P = L.make()
    want = {"mud": mud_ref(L), "map": map_ref(L)[0], "ls": np.linalg.lstsq(L.A, L.y - L.b, rcond=1e-10)[0], "initial": L.mean}
    for pt in ("mud", "map", "ls", "initial"):
        fig, ax = plt().subplots()
        kw = {} if pt == "mud" and chance(rng, 0.5) else {"point": pt}
        lab = pick(rng, [None, "S"])
        note = pick(rng, [None, [0.25, 0.75]])
        ln = pick(rng, [0, None, {"color": "g"}])
        if ln != 0:
            kw["ln_opts"] = ln
        if chance(rng, 0.3):  # other requests before the plot
            P.solve(pick(rng, ["mud", "map", "ls", "all"]), output_dim=int(rng.integers(1, L.m + 1)))
        P.plot_sol(ax=ax, label=lab, note_loc=note, **kw)
        size = np.abs(want[pt]).max() + np.abs(L.mean).max() + 1e-12
        c.check("marker drawn", len(ax.collections) == 1 and len(ax.collections[0].get_offsets()) == 1, pt)
        c.close(f"marker: {pt}", np.asarray(ax.collections[0].get_offsets(), float)[0], want[pt].ravel(), rtol=1e-5, atol=1e-7 * size)
        c.check("marker drawn", ax.collections[0].get_label() == pt, ax.collections[0].get_label())
        if ln is None or pt == "initial":
            c.check("no joining line", len(ax.lines) == 0, pt)
        else:
            c.check("joining line", len(ax.lines) == 1, pt, len(ax.lines))
            xy = np.asarray(ax.lines[0].get_xydata(), float)
            c.close("joining line", xy, np.array([L.mean.ravel(), want[pt].ravel()]), rtol=1e-5, atol=1e-7 * size)
        c.check("annotation", len(ax.texts) == (lab is not None))
        if lab is not None and note is not None:
            c.check("annotation", tuple(ax.texts[0].xy) == tuple(note))
        plt().close("all")
    # contour lines
    sub = None
    if chance(rng, 0.5):
        sub = [int(i) for i in rng.permutation(L.m)[: int(rng.integers(1, L.m + 1))]]
    rows = sub if sub is not None else list(range(L.m))
    rp = rng.normal(size=2) * 2
    given = chance(rng, 0.6)
    w = float(pick(rng, [1, 0.5, 3.0]))
    kw = {"w": w} if w != 1 or chance(rng, 0.5) else {}
    if sub is not None:
        kw["subset"] = pick(rng, [sub, np.array(sub)])
    if given:
        kw["ref"] = pick(rng, [rp, rp.reshape(2, 1), rp.tolist()])
    ann = chance(rng, 0.5)
    fig, ax = plt().subplots()
    note = None
    if ann and chance(rng, 0.5):
        note = kw["note_loc"] = pick(rng, [(0.3, -0.4), [2.5, 1.0], np.array([-0.25, 0.75])])
    P.plot_contours(ax=ax, annotate=ann, **kw)
    if note is not None:
        c.check("notes where asked", all(tuple(np.ravel(t.xy)) == tuple(note) for t in ax.texts), [t.xy for t in ax.texts], note)
    elif ann:
        for t, l in zip(ax.texts, ax.lines):
            xy = np.asarray([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float).T
            c.check("notes at the start of their lines", np.abs(np.ravel(t.xy) - xy[0]).max() <= 1e-12 * (1 + np.abs(xy).max()), t.xy, xy)
    judge_lines(c, L, ax, rows, rp if given else want["ls"].ravel(), w)
    if ann:
        c.check("lines labelled by row", [t.get_text() for t in ax.texts] == [str(r + 1) for r in rows], [t.get_text() for t in ax.texts], rows)
    if not given:
        res = L.A @ want["ls"] + L.b - L.y
        if np.abs(res).max() < 1e-9 * (np.abs(L.y).max() + np.abs(L.b).max() + 1e-12):
            for r, l in zip(rows, ax.lines):
                xy = np.asarray(l.get_xydata(), float)
                v = xy @ L.A[r] + L.b[r] - L.y[r]
                c.check("level set of the problem", np.abs(v).max() <= 1e-7 * (L.sc * (np.abs(xy).max() + w) + abs(float(L.b[r, 0])) + abs(float(L.y[r, 0]))), "row", r, v)
    plt().close("all")


def judge_lines(c, L, ax, rows, rp, w):
    c.check("one line per row", len(ax.lines) == len(rows), len(ax.lines), rows)
    for r, l in zip(rows, ax.lines):
        xy = np.asarray([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float).T
        c.check("line through reference", xy.shape == (2, 2), xy.shape)
        a = L.A[r] / np.linalg.norm(L.A[r])
        sz = np.abs(rp).max() + w
        c.close("line through reference", xy.mean(axis=0), rp, atol=1e-7 * sz)
        c.check("line in the level set", np.abs((xy - rp) @ a).max() <= 1e-7 * sz, "row", r, "off by", (xy - rp) @ a)
        c.close("line length", np.linalg.norm(xy[1] - xy[0]), 2 * w, rtol=1e-7)


@scenario("C39", "functionals", 160, 2000, need=["contour at its level", "window"])
def c39_fun(c):
    rng = c.rng
    L = Lin(rng, m=int(rng.integers(1, 3)), p=2, full_row=True, defaults=chance(rng, 0.6))
    L.note(c)
    P = L.make()
    aC = L.alpha * L.cov

    def F(X, term):
        ip = lambda V, M: (np.linalg.solve(np.linalg.cholesky(M), V) ** 2).sum(axis=0)
        D = ip(L.A @ X.T + L.b - L.y, L.obs)
        R = ip(X.T - L.mean, aC)
        Q = ip(L.A @ (X.T - L.mean), L.A @ aC @ L.A.T)
        return {"data": D, "reg": R, "dc_term": Q, "reg_m": R - Q, "bayes": D + R, "dc": D + R - Q}[term]

    term = pick(rng, ["data", "reg", "dc_term", "reg_m", "bayes", "dc"])
    N = int(pick(rng, [40, 60]))
    r = pick(rng, [1, 2, 0.5])
    kw = dict(N=N)
    x0, x1 = 0.0, float(r)
    y0, y1 = x0, x1
    if chance(rng, 0.4):
        x0, x1 = -2.0, 3.0
        y0, y1 = pick(rng, [(-2.0, 3.0), (-1.0, 1.5), (0.5, 4.0), (-0.2, 0.1)])
        X, Y = np.meshgrid(np.linspace(x0, x1, N), np.linspace(y0, y1, N), indexing=pick(rng, ["xy", "xy", "ij"]))
        kw["mesh"] = np.column_stack([X.ravel(), Y.ravel()])
    elif r != 1 or chance(rng, 0.5):
        kw["r"] = r
    if term != "dc" or chance(rng, 0.5):
        kw["terms"] = term
    gx, gy = np.meshgrid(np.linspace(x0, x1, N), np.linspace(y0, y1, N))
    V = F(np.column_stack([gx.ravel(), gy.ravel()]), term)
    lo, hi = V.min(), V.max()
    G = np.column_stack([gx.ravel(), gy.ravel()])
    if hi - lo < 1e-6 * (np.abs(F(G, "reg")).max() + np.abs(F(G, "data")).max()):
        c.saw("flat functional")
        return
    levels = np.linspace(lo, hi, 8)[2:-1]
    fig, ax = plt().subplots()
    P.plot_fun_contours(ax=ax, levels=levels, **kw)
    cs = ax.collections[0]
    paths = cs.get_paths()
    c.check("one contour per level", len(paths) == len(levels), len(paths), len(levels))
    e = np.diag([x1 - x0, y1 - y0]) / (N - 1)
    for lev, path in zip(levels, paths):
        v = np.asarray(path.vertices, float)
        if not len(v):
            continue
        # linear interpolation on the grid: second differences bound the error
        got = F(v, term)
        curv = sum(np.abs(F(v + d, term) + F(v - d, term) - 2 * got) for d in e).max()
        c.check("contour at its level", np.abs(got - lev).max() <= 1.5 * curv + 1e-6 * (hi - lo), term, "level", lev, "but values", got.min(), got.max())
        c.check("window", np.all(v.min(axis=0) >= [x0 - 1e-9, y0 - 1e-9]) and np.all(v.max(axis=0) <= [x1 + 1e-9, y1 + 1e-9]), v.min(axis=0), v.max(axis=0))
    c.saw("window")


@scenario("C39", "chains", 240, 4000, need=["chain links in order", "end markers", "errors drawn", "line through reference"])
def c39_chains(c):
    from mud import plot

    rng = c.rng
    s = iter_system(rng, p=2)
    while not np.abs(s["A"]).sum(axis=1).all():  # a row of zeros has no line to draw
        s = iter_system(rng, p=2)
    order = [int(i) for i in rng.permutation(s["m"])] if chance(rng, 0.6) else None
    P = ILP(s["A"], s["b"], s["y"], mu_i=s["mu"], cov=s["cov"], data_cov=s["obs"], idx_order=order)
    ep = int(rng.integers(1, 4)) if chance(rng, 0.7) else int(rng.integers(4, 13))
    P.solve(num_epochs=ep)
    rows = order or list(range(s["m"]))
    c.note(A=s["A"], y=s["y"], order=rows, epochs=ep)
    want = expected_chain(s, rows, ep, "mud", s["mu"].reshape(-1, 1))
    rp = rng.normal(size=(2, 1))
    fig, ax = plt().subplots()
    P.plot_chain(rp, ax=ax)
    scale = max(np.abs(v).max() for ch in want for v in ch) + 1
    links = [np.array([a.ravel(), b.ravel()]) for ch in want for a, b in zip(ch, ch[1:])]

    def in_order(links, what):
        """The links, drawn in order among whatever else is drawn -> the other lines."""
        wl = [l for l in links if np.abs(l[0] - l[1]).max() > 1e-9 * scale]
        rest, k = [], 0
        for l in ax.lines:
            xy = np.asarray([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float).T
            if k < len(wl) and xy.shape == (2, 2) and np.abs(xy - wl[k]).max() <= 1e-7 * scale:
                k += 1
            elif xy.shape != (2, 2) or np.abs(xy[0] - xy[1]).max() > 1e-7 * scale:
                rest.append(l)
        c.check("chain links in order", k == len(wl), what, "link", k, "of", len(wl), "not drawn:", wl[k] if k < len(wl) else "")
        return rest

    def same_marks(pts, want, what):
        c.check("end markers", len(pts) == len(want), what, len(pts), len(want))
        left = [np.asarray(p, float) for p in pts]
        for m in want:  # in whatever order they were drawn
            d = [np.abs(p - m).max() for p in left]
            k = int(np.argmin(d))
            c.check("end markers", d[k] <= 1e-7 * scale, what, "no marker at", m, "markers", left)
            left.pop(k)

    def marks(ax):
        return [m for k in ax.collections for m in np.asarray(k.get_offsets(), float)]

    L = type("o", (), {"A": s["A"]})
    judge_lines(c, L, type("o", (), {"lines": in_order(links, "method")}), rows, rp.ravel(), 1)
    same_marks(marks(ax), [m for ch in want for m in (ch[0].ravel(), ch[-1].ravel(), rp.ravel())], "method")
    for _ in range(2):
        rp2 = rng.normal(size=(2, 1)) if chance(rng, 0.6) else s["x"]
        fig, ax = plt().subplots()
        P.plot_chain_error(rp2 if chance(rng, 0.5) else rp2.ravel(), ax=ax, label="e")
        w = np.array([np.linalg.norm(v.ravel() - rp2.ravel()) for ch in want for v in ch[1:]])
        c.close("errors drawn", np.asarray(ax.lines[0].get_ydata(), float), w, rtol=1e-6, atol=1e-7 * scale)
        c.check("errors drawn", len(ax.lines) == 1 and ax.get_yscale() == "log" and ax.lines[0].get_label() == "e")
    # the module-level helpers draw on the current axes
    fig, ax = plt().subplots()
    ch = [v.copy() for v in want[0]]
    plot.plotChain(ch, rp)
    rest = in_order([np.array([a.ravel(), b.ravel()]) for a, b in zip(ch, ch[1:])], "helper")
    c.check("chain links in order", not rest, "helper draws", len(rest), "other lines")
    same_marks(marks(ax), [ch[0].ravel(), rp.ravel()], "helper")
    fig, ax = plt().subplots()
    sub = pick(rng, [None, rows, np.array(rows)])
    plot.plot_contours(s["A"], pick(rng, [rp, rp.ravel()]), subset=sub, w=2)
    judge_lines(c, L, ax, list(range(s["m"])) if sub is None else rows, rp.ravel(), 2)
    c.check("lines labelled by row", [t.get_text() for t in ax.texts] == [str(r + 1) for r in (range(s["m"]) if sub is None else rows)])


# ------------------------------------------------------------------ C40
rule("C40", "Random studies plotted for random sensors, times and samples; every drawn series is looked up among the simulated series of that sensor, markers and sensor scatters are compared with measurements and coordinates.")


@scenario("C40", "component vectors", 120, 1500, need=["components in order", "markers as given"])
def c40_vecs(c):
    """plot_1D_vecs: entry i of every vector at abscissa i, one labelled scatter per vector."""
    from mud.plot import plot_1D_vecs

    rng = c.rng
    k, m = int(rng.integers(1, 5)), int(rng.integers(1, 12))
    V = rng.normal(size=(k, m))
    vecs = pick(rng, [V, V.tolist(), list(V)])
    if chance(rng, 0.25):  # vectors of different lengths
        V = [rng.normal(size=int(rng.integers(1, 12))) for _ in range(k)]
        vecs = pick(rng, [V, [v.tolist() for v in V], tuple(V)])
    marks = ["o", "x", "s", "^"][:k] if chance(rng, 0.5) else None
    c.note(V=V, marks=marks)
    kw = {} if marks is None else {"markers": marks}
    lab = {} if chance(rng, 0.5) else {"label": bool(rng.integers(2))}
    ax = None
    if chance(rng, 0.6):
        _, ax = plt().subplots()
    out = plot_1D_vecs(vecs, **({"ax": ax} if ax is not None else {}), **kw, **lab, s=7)
    c.check("axes returned", out is ax if ax is not None else out in plt().gcf().axes)
    c.check("components in order", len(out.collections) == k, len(out.collections), "scatters for", k, "vectors")
    for i, a in enumerate(out.collections):
        c.close("components in order", np.asarray(a.get_offsets(), float), np.column_stack([np.arange(len(V[i])), V[i]]), rtol=1e-12)
        c.check("components in order", str(i + 1) in a.get_label(), a.get_label())
        c.check("options reach the scatter", np.all(a.get_sizes() == 7))
    if marks is not None and k > 1 and m > 0:
        shapes = {str(np.asarray(a.get_paths()[0].vertices).tolist()) for a in out.collections}
        c.check("markers as given", len(shapes) == k, len(shapes), "marker shapes for", k, "markers")
    if lab.get("label", True):
        c.check("legend on request", out.get_legend() is not None)
    else:
        c.check("legend on request", out.get_legend() is None)
    plt().close("all")


@scenario("C40", "time series", 480, 8000, need=["measurements drawn", "series of one sample at the sensor", "at most the requested number"])
def c40_ts(c):
    rng = c.rng
    w = Study(rng, n=int(rng.integers(101, 140)) if chance(rng, 0.05) else None, T=int(rng.integers(2, 8)))
    st = w.build(rng)
    w.note(c)
    s = int(rng.integers(w.S))
    kw = {"sensor_idx": s} if s or chance(rng, 0.5) else {}
    ti, si = np.arange(w.T), np.arange(w.n)
    if chance(rng, 0.5):
        m, ti = w.mask(rng, w.T)
        kw["times"] = m
    if chance(rng, 0.5):
        m, si = w.mask(rng, w.n)
        kw["samples"] = m
    mp = 100
    if chance(rng, 0.6):
        mp = kw["max_plot"] = int(rng.integers(1, 25))
    style = {}
    if chance(rng, 0.4):
        style["meas_kwargs"] = {"s": 37, "label": "mine"}
    if chance(rng, 0.4):
        style["samples_kwargs"] = {"linewidth": 3.25}
    fig, ax = plt().subplots()
    out = st.plot_ts(ax=ax, **kw, **style)
    c.check("axes returned", out is ax)
    if "meas_kwargs" in style:
        a = ax.collections[0]
        c.check("drawing options used", np.all(a.get_sizes() == 37) and a.get_label() == "mine", a.get_sizes(), a.get_label())
    lab = [l for l in ax.lines if l.get_label() == f"Sensor {s}"]
    c.check("sensor named once", len(lab) == 1, [l.get_label() for l in ax.lines][-3:])
    if "samples_kwargs" in style:
        c.check("drawing options used", all(l.get_linewidth() == 3.25 for l in ax.lines if l not in lab), "line widths")
    c.check("measurements drawn", len(ax.collections) == 1, len(ax.collections))
    c.close("measurements drawn", np.asarray(ax.collections[0].get_offsets(), float), np.column_stack([w.times[ti], w.meas[s, ti]]), rtol=1e-12)
    c.check("at most the requested number", 1 <= len(ax.lines) <= min(mp, max(len(si), 1)), len(ax.lines), "for", mp, "of", len(si))
    c.check("as many as requested", len(ax.lines) == min(mp, len(si)), len(ax.lines), mp, len(si))
    allowed = w.data[si][:, s][:, ti]
    for l in ax.lines:
        c.close("series times", np.ravel(np.asarray(l.get_xdata(), float)), w.times[ti] * 1.0, rtol=1e-12)
        y = np.ravel(np.asarray(l.get_ydata(), float))
        c.check("series of one sample at the sensor", (np.abs(allowed - y) == 0).all(axis=1).any(), "drawn", y)
    plt().close("all")


@scenario("C40", "sensors", 320, 5000, need=["sensor scatter", "sensor scatter colours", "contour through sensors", "colour bar as requested"])
def c40_sensors(c):
    rng = c.rng
    w = Study(rng, S=int(rng.integers(5, 14)), T=1)
    w.sensors = rng.random((w.S, 2)) * pick(rng, [1, 20]) + rng.normal(size=2)
    if chance(rng, 0.5):
        w.data = rng.normal(size=w.data.shape)
    st = w.build(rng)
    w.note(c, sensors=w.sensors)
    m, xi = w.mask(rng, w.S)
    if isinstance(m, list):
        m = np.array(m)
    fig, ax = plt().subplots()
    kw = {} if m is None else {"mask": m}
    col = None
    if chance(rng, 0.6):
        col = rng.random(len(xi))
        kw["c"] = col.copy()
        kw["colorbar"] = pick(rng, [None, True, False])
    out = st.sensor_scatter_plot(ax=ax, s=11, **kw)
    c.check("axes returned", out is ax)
    c.check("drawing options used", np.all(ax.collections[0].get_sizes() == 11))
    c.check("colour bar as requested", len(fig.axes) == 1 + bool(kw.get("colorbar")), kw.get("colorbar"), len(fig.axes))
    judge_scatter(c, ax, w.sensors[xi], "sensor scatter", col)
    # contours
    sel = np.arange(w.S)
    kw = {}
    vals = w.data[0].ravel()
    k = int(rng.integers(3))
    if k == 1:
        i = int(rng.integers(w.n))
        kw["idx"], vals = i, w.data[i].ravel()
    elif k == 2:
        vals = rng.random(w.S)
        kw["c_vals"] = vals.copy()
        if chance(rng, 0.5) and w.S > 5:
            sel = np.sort(rng.permutation(w.S)[: int(rng.integers(5, w.S + 1))])
            vals = rng.random(len(sel))
            kw.update(mask=sel, c_vals=vals.copy())
    if np.ptp(vals) < 1e-9:
        return
    lv = np.linspace(vals.min(), vals.max(), 6)[1:-1]
    fig, ax = plt().subplots()
    bar = pick(rng, [True, False, None])
    opt = {}
    if chance(rng, 0.6):
        opt = {"alpha": float(rng.uniform(0.1, 0.9)), "linewidths": float(rng.uniform(0.3, 5))}
        if chance(rng, 0.5):
            opt["cmap"] = pick(rng, ["viridis", "coolwarm"])
        elif bar is False:
            opt["colors"] = pick(rng, ["red", "#12ab34"])
    out = st.sensor_contour_plot(ax=ax, fill=False, levels=lv, **opt, **kw, **({} if bar is None else {"colorbar": bar}))
    c.check("axes returned", out is ax)
    cs = ax.collections[0]
    if opt:
        c.check("drawing options used", cs.get_alpha() == opt["alpha"] and np.allclose(cs.get_linewidths(), opt["linewidths"]), opt, cs.get_alpha(), cs.get_linewidths())
        if "cmap" in opt:
            c.check("drawing options used", cs.get_cmap().name == opt["cmap"], opt, cs.get_cmap().name)
        if "colors" in opt:
            from matplotlib.colors import to_rgb

            c.check("drawing options used", all(np.allclose(e[:3], to_rgb(opt["colors"])) for e in cs.get_edgecolors()), opt, cs.get_edgecolors())
    c.check("colour bar as requested", len(fig.axes) == 1 + (bar is not False), bar, len(fig.axes))
    judge_tri(c, ax.collections[0], lv, w.sensors[sel], vals)
    fig, ax = plt().subplots()
    st.sensor_contour_plot(ax=ax, colorbar=False, levels=np.linspace(vals.min(), vals.max(), 6), **kw)
    V = np.vstack([p.vertices for p in ax.collections[0].get_paths() if len(p.vertices)])
    S = w.sensors[sel]
    c.close("contour through sensors", np.array([V.min(axis=0), V.max(axis=0)]), np.array([S.min(axis=0), S.max(axis=0)]), atol=1e-9 + 1e-6 * np.abs(S).max(), msg="filled area")
    plt().close("all")


def judge_tri(c, cs, levels, pts, vals):
    from matplotlib import tri

    interp = tri.LinearTriInterpolator(tri.Triangulation(pts[:, 0], pts[:, 1]), vals)
    for lev, path in zip(levels, cs.get_paths()):
        v = np.asarray(path.vertices, float)
        if not len(v):
            continue
        mid = pts.mean(axis=0)
        # on the hull, or on a sliver with a steep slope, the vertex itself or a point just inside it
        near = [np.ma.filled(interp(*(mid + (v - mid) * (1 - h)).T), np.nan) for h in (0, 1e-12, 1e-9, 1e-7)]
        near = np.array([z[np.nanargmin(np.abs(z - lev))] for z in np.transpose(near) if np.isfinite(z).any()])
        z = near
        c.check("contour through sensors", np.abs(z - lev).max() <= 1e-4 * np.ptp(vals) if len(z) else True, "level", lev, "values", z)


@scenario("C40", "station maps", 48, 400, need=["stations marked", "values shown"])
def c40_tri(c):
    from mud.examples.adcirc import tri_mesh_plot
    from matplotlib import tri

    rng = c.rng
    n = int(rng.integers(12, 40))
    X, Y = rng.random(n) * 3 + 70, rng.random(n) * 2 + 40
    T = tri.Triangulation(X, Y)
    k = int(rng.integers(2, 6))
    g = {"X": X, "Y": Y, "triangles": T.triangles, "DP": rng.normal(size=n) * 5, "wind_speed_mult_0": rng.random(n), "other": rng.normal(size=n),
         "XEL": rng.random(k) + 70, "YEL": rng.random(k) + 40}
    keep = copied(g)
    value = pick(rng, ["wind_speed_mult_0", "other", "DP"])
    stations = [int(i) for i in rng.permutation(k)[: int(rng.integers(1, k + 1))]]
    c.note(X=X, Y=Y, stations=stations, value=value)
    kw = dict(value=value, stations=stations)
    if chance(rng, 0.4):
        kw["zoom"] = [[71.0, 0.5], [41.0, 0.25]]
    plt().close("all")
    tri_mesh_plot(g, **kw)
    ax = plt().gcf().axes[0]
    c.check("inputs kept", equal(g, keep))
    pts = [a for a in ax.collections if len(a.get_offsets()) == 1 and str(a.get_label()).startswith("Recording")]
    c.check("stations marked", len(pts) == len(stations), len(pts), len(stations))
    for a, s in zip(pts, stations):
        c.close("stations marked", np.asarray(a.get_offsets(), float)[0], np.array([g["XEL"][s], g["YEL"][s]]), rtol=1e-12)
    if "zoom" in kw:
        c.close("window", np.array(ax.get_xlim()), np.array([70.5, 71.5]), rtol=1e-9)
        c.close("window", np.array(ax.get_ylim()), np.array([40.75, 41.25]), rtol=1e-9)
    if value != "DP":
        cs = [a for a in ax.collections if hasattr(a, "levels")][0]
        lo, hi = g[value].min(), g[value].max()
        shows = lambda v: cs.levels[0] <= v.min() + 1e-9 and cs.levels[-1] >= v.max() - 1e-9 and cs.levels[-1] - cs.levels[0] < 2.5 * np.ptp(v) + 1e-9
        if value == "other" and not shows(g["other"]) and shows(g["wind_speed_mult_0"]):
            c.defect("wind speed shown for any grid value", False, "levels", cs.levels, "values from", lo, "to", hi)
            return
        c.check("values shown", cs.levels[0] <= lo + 1e-9 and cs.levels[-1] >= hi - 1e-9 and cs.levels[-1] - cs.levels[0] < 2.5 * (hi - lo) + 1e-9, cs.levels, lo, hi)
    c.saw("values shown")
    c.refused("unknown value refused", lambda: tri_mesh_plot(g, value="nothing"), (ValueError, KeyError))


# ------------------------------------------------------------------ C04 (drawn defaults)
@scenario("C04", "drawn defaults", 320, 4000, need=["curve: default initial density", "curve: default observed density", "curve: default prior"])
def c04_drawn(c):
    """Unset densities, seen through the plots: uniform over the domain (standard normal for data)."""
    rng = c.rng
    p = int(pick(rng, [1, 2, 2, 3]))
    n = int(rng.integers(20, 60))
    box = gen.box(rng, p) if hasattr(gen, "box") else np.sort(rng.normal(size=(p, 2)) * 10.0 ** rng.integers(-2, 3, (p, 1)), axis=1)
    lo, hi = box.T
    X = lo + (hi - lo) * rng.random((n, p))
    y = rng.normal(size=(n, 1)) + (X - lo) @ (1 / (hi - lo))[:, None]
    given = chance(rng, 0.7)
    k = int(rng.integers(3))
    c.note(X=X, box=box, given=given, k=k)
    if not given:
        a, b = X.min(axis=0), X.max(axis=0)
        lo, hi = a - 0.1 * (b - a), b + 0.1 * (b - a)
    uni = dist.uniform(loc=lo, scale=hi - lo)
    idx, aff = int(rng.integers(p)), 61 if p == 1 else 31 if p == 2 else 13
    win = np.column_stack([lo - rng.uniform(0.05, 0.9, p) * (hi - lo), hi + rng.uniform(0.05, 0.9, p) * (hi - lo)])
    args = (X, y, box) if given else (X, y)
    D, B = DP(*args), BP(*args)
    if k == 1:
        D.set_initial()
        B.set_prior()
    elif k == 2:  # back to the defaults after something else
        D.set_initial(dist.norm(lo, hi - lo))
        D.set_initial()
        B.set_prior(dist.norm(lo, hi - lo))
        B.set_prior(None)
    B.set_likelihood(dist.norm(0, 1))
    # the window's corner cell decides whether anything is inside for coarse grids
    inside = [np.sum((g := np.linspace(*win[j], aff)[:-1]) >= lo[j]) and np.any((g >= lo[j]) & (g <= hi[j])) for j in range(p)]
    if not all(inside):
        return
    fig, ax = plt().subplots()
    D.plot_param_space(param_idx=idx, ax=ax, x_range=win, aff=aff, in_opts={"label": "i"}, up_opts=None, mud_opts=None)
    judge_curve(c, "default initial density", by_label(ax, "i")[0], win, idx, aff, inside_marg(uni, p, idx, win, aff))
    fig, ax = plt().subplots()
    B.plot_param_space(param_idx=idx, ax=ax, x_range=win, aff=aff, pr_opts={"label": "i"}, ps_opts=None, map_opts=None)
    judge_curve(c, "default prior", by_label(ax, "i")[0], win, idx, aff, inside_marg(uni, p, idx, win, aff))
    yw = np.sort(rng.normal(size=(1, 2)) * 2, axis=1)
    if yw[0, 1] - yw[0, 0] > 0.1:
        fig, ax = plt().subplots()
        D.plot_obs_space(ax=ax, y_range=yw, aff=61, ob_opts={"label": "o"}, pr_opts=None, pf_opts=None)
        judge_curve(c, "default observed density", by_label(ax, "o")[0], yw, 0, 61, inside_marg(dist.norm(), 1, 0, yw, 61))
    plt().close("all")


@scenario("C31", "vertical lines", 240, 3000, need=["line spans the shown range", "shown range kept"])
def c31_vert(c):
    """A marker spans what the axes show and changes at most the upper limit, as asked."""
    from mud.plot import plot_vert_line

    rng = c.rng
    _, ax = plt().subplots()
    if chance(rng, 0.6):
        ax.plot(rng.normal(size=5), rng.normal(size=5) * 10.0 ** rng.integers(-2, 3) + rng.normal() * 10)
    if chance(rng, 0.5):
        lo = rng.normal() * 10
        ax.set_ylim(lo, lo + rng.uniform(0.1, 20))
    a, b = ax.get_ylim()
    top = float(b + rng.uniform(-0.9, 3) * (b - a)) if chance(rng, 0.6) else None
    x = float(rng.normal() * 3)
    c.note(limits=(a, b), top=top, x=x)
    kw = {} if top is None else {"ylim": top}
    if chance(rng, 0.5):
        kw["label"] = "here"
    if chance(rng, 0.5):
        kw.update(linewidth=float(rng.uniform(0.5, 9)), color=pick(rng, ["red", "k", "#12ab34"]), linestyle=pick(rng, ["--", "-", ":"]), alpha=float(rng.uniform(0.1, 1)))
    style = dict(plt().rcParams)
    plot_vert_line(ax, x, **kw)
    settings_kept(c, "vertical line", style)
    want = [a, b if top is None else top]
    l = ax.lines[-1]
    c.same("line spans the shown range", np.asarray(l.get_xdata(), float), [x, x])
    c.close("line spans the shown range", np.sort(np.asarray(l.get_ydata(), float)), want, rtol=1e-12, atol=1e-12)
    c.close("shown range kept", ax.get_ylim(), want, rtol=1e-9, atol=1e-12)
    if "label" in kw:
        c.check("line options", l.get_label() == "here")
    if "linewidth" in kw:
        c.check("line options", (l.get_linewidth(), l.get_color(), l.get_linestyle(), l.get_alpha()) == (kw["linewidth"], kw["color"], kw["linestyle"], kw["alpha"]))
    plt().close("all")
