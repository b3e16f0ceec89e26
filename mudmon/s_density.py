"""C01-C08: density and Bayes problems."""
import itertools

import numpy as np
from scipy.stats import distributions as dist

from . import gen, ref
from .core import Violated, rule, scenario
from .gen import chance, pick
from .taps import BayesMonitor, DensityMonitor


def DP(*a, **k):
    from mud.base import DensityProblem

    return DensityProblem(*a, **k)


def BP(*a, **k):
    from mud.base import BayesProblem

    return BayesProblem(*a, **k)


def setup(rng, n=None, p=None, q=None, big=False, weighted=True, ints=True):
    p = p or int(pick(rng, [1, 1, 2, 2, 3, 5]))
    q = q or int(pick(rng, [1, 1, 2, 2, 3]))
    n = n or gen.n_samples(rng, big, lo=max(10, 4 * q + 4))
    X, box = gen.samples(rng, n, p)
    y = gen.model(rng, X, box, q)
    if ints and chance(rng, 0.1):  # counts
        y = np.round((y - y.min(axis=0)) / np.ptp(y, axis=0) * rng.integers(30, 200, q) - rng.integers(0, 20, q)).astype(int)
        y += rng.integers(-1, 2, y.shape)
    elif chance(rng, 0.12):  # outputs in other units
        y = y * 10.0 ** (rng.uniform(-14, 14, q) if chance(rng, 0.5) else rng.uniform(-14, 14))
    s = dict(X=X, y=y, box=box)
    s["w"] = gen.weights(rng, n, q) if weighted and chance(rng, 0.7) else None
    s["norm"] = chance(rng, 0.3)
    s["domain"] = box if chance(rng, 0.5) else None
    s["ini"] = gen.density(rng, box) if chance(rng, 0.6) else None
    if s["domain"] is not None and (s["ini"] is not None or p < 3) and chance(rng, 0.3):
        s["domain"] = gen.restated(rng, box)
    s["ob"] = gen.density(rng, gen.ybox(y)) if chance(rng, 0.7) else None
    s["pr"] = predicted(rng, y)
    return s


def predicted(rng, y):
    """('kde', bw) or ('given', dist, kwargs) or None (default)."""
    k = int(rng.integers(8))
    q = y.shape[1]
    b = gen.ybox(y)
    w = b[:, 1] - b[:, 0]
    if k <= 2:
        return None
    if k == 3:
        return ("kde", gen.bandwidth(rng), {})
    if k == 4:  # covers all samples
        return ("given", dist.norm(loc=b.mean(axis=1), scale=w * rng.uniform(0.2, 0.9, q)), {})
    if k == 5 and q > 1:
        cov = np.cov(y.T) + np.diag(w**2) * 0.01
        return ("given", gen.Joint(y.mean(axis=0), cov), {})
    if k == 6:  # vanishes at some samples
        return ("given", dist.uniform(loc=b[:, 0] + 0.15 * w, scale=0.6 * w), {})
    return (
        "given",
        gen.Scaled([gen.marginal(rng, b[j, 0] - w[j], b[j, 1] + w[j]) for j in range(q)]),
        {"scale": float(rng.uniform(0.6, 2.5)), "shift": float(rng.normal() * w[0] * 0.1)},
    )


def build(rng, s, forms=True):
    f = (lambda a: gen.form(rng, a)) if forms else (lambda a: a)
    kw = {}
    if s["domain"] is not None:
        kw["domain"] = f(s["domain"])
    if s["w"] is not None:
        kw["weights"] = f(s["w"])
        kw["normalize"] = s["norm"]
    X = s["X"][:, 0] if s["X"].shape[1] == 1 and chance(rng, 0.3) else s["X"]
    y = s["y"][:, 0] if s["y"].shape[1] == 1 and chance(rng, 0.3) else s["y"]
    return DP(f(X), f(y), **kw)


def apply(rng, D, s):
    if s["ini"] is not None:
        D.set_initial(s["ini"])
    elif s["pr"] is not None:
        # the default initial filled in at fit would discard an explicit predicted
        D.set_initial()
    for what in rng.permutation(2):
        if what == 0 and s["ob"] is not None:
            D.set_observed(s["ob"])
        if what == 1 and s["pr"] is not None:
            set_predicted(D, s["pr"])
    return D


def set_predicted(D, pr):
    if pr[0] == "kde":
        D.set_predicted(bw_method=pr[1])
    else:
        D.set_predicted(pr[1], **pr[2])


def note(c, s, **kw):
    c.note(X=s["X"], y=s["y"], w=s["w"] if s["w"] is not None else "none",
           ini=type(s["ini"]).__name__, ob=type(s["ob"]).__name__,
           pr=str(s["pr"][0]) if s["pr"] else "default", **kw)


def clear_best(val, rtol=1e-6):
    """Index of the maximum when it is separated from every other row's value."""
    o = np.argsort(val)
    if not np.isfinite(val[o[-1]]) or not val[o[-1]] > 1e-250:
        return None
    if len(val) > 1 and val[o[-2]] >= val[o[-1]] * (1 - rtol):
        return None
    return int(o[-1])


# ------------------------------------------------------------------ C01
rule("C01", "Random, degenerate and large density problems are solved under the density monitor, which recomputes initial x weight x observed / predicted for every sample from the densities the client set and compares the reported row with the maximum.")


@scenario("C01", "random", 1920, 20000, need=["estimate: maximal"])
def c01_random(c):
    rng = c.rng
    s = setup(rng, big=True)
    note(c, s)
    with DensityMonitor(c, ratio=False):
        D = apply(rng, build(rng, s), s)
        if chance(rng, 0.3):
            D.fit()
        a = D.estimate()
        b = D.mud_point()
        c.same("estimate equals mud_point", a, b)
        if chance(rng, 0.3):
            D.fit()
            D.estimate()


@scenario("C01", "vanishing", 960, 8000, need=["estimate: maximal"])
def c01_vanishing(c):
    """Predicted, observed, initial densities and weights that vanish in places."""
    rng = c.rng
    p, q = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    n = int(rng.integers(15, 60))
    s = setup(rng, n=n, p=p, q=q, weighted=False)
    b = gen.ybox(s["y"])
    w = b[:, 1] - b[:, 0]
    s["pr"] = ("given", dist.uniform(loc=b[:, 0] + rng.uniform(0, 0.3) * w, scale=rng.uniform(0.4, 0.7) * w), {})
    k = int(rng.integers(3))
    if k == 0:
        s["ob"] = dist.uniform(loc=b[:, 0] + 0.2 * w, scale=0.5 * w)
    elif k == 1:
        s["ob"] = dist.norm(loc=b.mean(axis=1), scale=0.02 * w)
    if chance(rng, 0.7):
        W = rng.uniform(0.1, 2, n)
        W[rng.random(n) < 0.4] = 0.0
        if not W.any():
            W[0] = 1.0
        s["w"] = W
    if chance(rng, 0.4):
        bx = s["box"]
        s["ini"] = dist.uniform(loc=bx[:, 0] + 0.1 * (bx[:, 1] - bx[:, 0]), scale=0.8 * (bx[:, 1] - bx[:, 0]))
    note(c, s)
    with DensityMonitor(c, ratio=False):
        apply(rng, build(rng, s), s).estimate()


@scenario("C01", "zero-weight-far", 240, 2000, need=["estimate: maximal"])
def c01_zero_far(c):
    """Zero-weight samples so far out that the default predicted density underflows there."""
    rng = c.rng
    n = int(rng.integers(12, 60))
    X = rng.random((n, 1))
    y = X - rng.random()
    k = int(rng.integers(1, max(2, n // 3)))
    far = rng.choice(n, k, replace=False)
    y[far] += rng.choice([-1, 1], (k, 1)) * rng.uniform(50, 5000, (k, 1))
    w = rng.uniform(0.2, 1, n)
    w[far] = 0
    ob = pick(rng, [None, dist.norm(0.1, 0.5), dist.cauchy(), dist.t(2)])
    c.note(X=X, y=y, w=w, ob=str(ob and ob.dist.name))
    with DensityMonitor(c, ratio=False):
        D = DP(X, y, domain=[0, 1], weights=w)
        if ob is not None:
            D.set_observed(ob)
        D.estimate()


@scenario("C01", "planted-winner", 384, 3000, need=["estimate is the planted sample"])
def c01_planted(c):
    """One sample is made the best by construction; it must be returned wherever it sits."""
    rng = c.rng
    p, q = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    n = int(pick(rng, [40, 200, 3000, 7000 if c.thorough else 5200]))
    i = int(pick(rng, [0, n - 1, int(rng.integers(n))]))
    X = rng.random((n, p))
    y = rng.uniform(1, 2, (n, q)) * rng.choice([-1, 1], (n, q))
    y[i] = rng.normal(size=q) * 1e-3
    c.note(n=n, i=i, p=p, q=q, X=X[:3])
    D = DP(X, y, domain=[[0, 1]] * p)
    D.set_initial(dist.uniform(loc=np.zeros(p), scale=np.ones(p)))
    D.set_observed(dist.norm(loc=np.zeros(q), scale=np.full(q, 0.3)))
    D.set_predicted(dist.norm(loc=np.zeros(q), scale=np.full(q, 4.0)))
    c.same("estimate is the planted sample", D.estimate(), X[i])
    # a close rival anywhere, and samples the observed density prefers but the initial excludes
    j = int(rng.integers(n))
    if j != i:
        y[i], y[j] = 0.0, 10.0 ** rng.uniform(-4.5, -2, q)
        D = DP(X, y, domain=[[0, 1]] * p)
        D.set_observed(dist.norm(loc=np.zeros(q), scale=np.full(q, 0.3)))
        D.set_initial()
        D.set_predicted(dist.norm(loc=np.zeros(q), scale=np.full(q, 4.0)))
        c.same("estimate is the planted sample", D.estimate(), X[i], "close rival")


@scenario("C01", "component-structure", 384, 3000, need=["estimate: maximal"])
def c01_components(c):
    """Every component must count: initial and observed densities vary strongly in each."""
    rng = c.rng
    p, q = int(rng.integers(2, 6)), int(rng.integers(2, 5))
    n = int(rng.integers(4 * q + 10, 150))
    X, box = gen.samples(rng, n, p)
    y = gen.model(rng, X, box, q)
    s = dict(X=X, y=y, box=box, w=gen.weights(rng, n, q), norm=False, domain=box)
    s["ini"] = gen.density(rng, box, kind=pick(rng, [0, 2, 3]))
    b = gen.ybox(y)
    s["ob"] = gen.density(rng, b, kind=pick(rng, [0, 2, 3]))
    s["pr"] = pick(rng, [None, ("given", dist.norm(loc=b.mean(axis=1), scale=(b[:, 1] - b[:, 0]) * rng.uniform(0.1, 0.5, q)), {})])
    note(c, s)
    with DensityMonitor(c, ratio=False):
        apply(rng, build(rng, s), s).estimate()


@scenario("C01", "examples", 8, 60, need=["estimate: maximal"])
def c01_examples(c):
    """The repository's own example problems, under the monitor."""
    from mud.examples import simple

    rng = c.rng
    n = int(rng.integers(100, 1500))
    kw = dict(num_samples=n, num_obs=int(rng.integers(2, 60)), mu=float(rng.uniform(0.2, 0.8)),
              sigma=float(rng.uniform(0.01, 0.2)), analytical_pred=chance(rng, 0.5))
    c.note(**kw)
    w = rng.random(n) + 0.1 if chance(rng, 0.5) else None
    with DensityMonitor(c, ratio=False):
        D = simple.identity_1D_density_prob(weights=w, domain=pick(rng, [[0, 1], [0.3, 0.9], [-1, 2]]), **kw)
        D.estimate()
        D.set_observed(dist.norm(0.3, 0.7))
        D.estimate()
        try:
            D = simple.identity_1D_temporal_prob(num_samples=n, num_obs=kw["num_obs"], y_true=kw["mu"], noise=kw["sigma"],
                                                 weights=w, domain=[[0, 1]])
        except ValueError as e:  # recorded under C35
            c.check("temporal example", "distribution could not be inferred" in str(e), str(e))
            return
        D.estimate()


# ------------------------------------------------------------------ C02
rule("C02", "Random and exhaustively enumerated call histories over one problem; after each step estimate and expected ratio are judged against a shadow model of the configuration in force and against a freshly built problem.")


def fresh(D, mon, s):
    """A newly built problem that is given only what is in force."""
    st = mon.state(D)
    F = DP(s["X"], s["y"], domain=st["domain"], weights=st["w"])
    F.set_initial(st["ini"])
    if st["pr"][0] == "kde":
        F.set_predicted(bw_method=st["pr"][1])
    else:
        F.set_predicted(st["pr"][1], **st["pr"][2])
    F.set_observed(st["ob"])
    return F


def ask(c, D, mon, s, against_fresh=True, order=0):
    if order == 0:
        e = D.estimate()
        r = D.expected_ratio()
    else:
        r = D.expected_ratio()
        e = D.estimate()
    if against_fresh:
        F = fresh(D, mon, s)
        r2 = F.expected_ratio()
        if np.isfinite(r2):
            c.close("ratio equals fresh problem", r, r2, rtol=1e-9, atol=1e-300)
        inn, ob, pr = mon.values(mon.state(D))
        up = ref.updated(inn, mon.state(D)["w"], ob, pr)
        if clear_best(up) is not None:
            c.same("estimate equals fresh problem", e, F.estimate())
    return e, r


def history_ops(rng, s, D, mon, plots=True):
    """name -> thunk, each a client call with fresh random arguments."""
    n, q = s["y"].shape
    yb = gen.ybox(s["y"])

    def bad_weights():
        try:
            D.set_weights(np.ones(n + int(pick(rng, [-1, 1, n]))))
        except (AssertionError, ValueError):
            return
        raise Violated("bad weights refused", "weights of the wrong length were accepted")

    def bad_predicted():
        try:
            D.set_predicted(weights=np.ones(n + 2))
        except (AssertionError, ValueError):
            return
        raise Violated("bad weights refused", "set_predicted accepted weights of the wrong length")

    def fit_kw():
        k = int(rng.integers(3))
        if k == 0:
            D.fit(bw_method=gen.bandwidth(rng))
        elif k == 1:
            D.fit(bw_method=float(rng.uniform(0.1, 1)), weights=gen.form(rng, np.abs(rng.normal(size=n)) + 0.1))
        else:
            D.fit(distribution=dist.norm(loc=yb.mean(axis=1), scale=yb[:, 1] - yb[:, 0]))

    def spread():  # the updated density must be a density for its plot to exist
        st = dict(mon.state(D))  # a plot not drawn fills nothing in
        mon.fill(st, {})
        inn, ob, pr = mon.values(st)
        r = ref.ratio(ob, pr, st["w"]) * st["w"]
        if not (np.isfinite(r).all() and np.sum(r) > 1e-200 and np.sum(r) ** 2 / np.sum(r**2) > 2):
            return False
        for z in (st["X"] * 1.0, st["y"] * 1.0):
            z = (z - z.mean(axis=0)) / np.where(z.std(axis=0) > 0, z.std(axis=0), 1)
            if not all(np.linalg.eigvalsh(np.atleast_2d(np.cov(z.T, aweights=v / v.max()))).min() > 1e-9 for v in (r, st["w"])):
                return False
        return True

    def pplot():
        from matplotlib import pyplot as plt

        if not spread():
            return
        D.plot_param_space(param_idx=int(rng.integers(s["X"].shape[1])), aff=6 if s["X"].shape[1] > 1 else 20,
                           mud_opts=pick(rng, [None, {"color": "g"}]), win_opts=pick(rng, [None, {}]),
                           up_opts=pick(rng, [None, {}]))
        plt.close("all")

    def oplot():
        from matplotlib import pyplot as plt

        if not spread():
            return
        D.plot_obs_space(obs_idx=int(rng.integers(q)), aff=6 if q > 1 else 20)
        plt.close("all")

    def given():
        pr = None
        while pr is None or pr[0] == "kde":
            pr = predicted(rng, s["y"])
        set_predicted(D, pr)

    ops = {
        "weights": lambda: D.set_weights(gen.weights(rng, n, q), normalize=chance(rng, 0.3)),
        "weights-none": lambda: D.set_weights(),
        "weights-bad": bad_weights,
        "pred-bad": bad_predicted,
        "observed": lambda: D.set_observed(gen.density(rng, yb)),
        "observed-default": lambda: D.set_observed(),
        "initial": lambda: D.set_initial(gen.density(rng, s["box"])),
        "initial-default": lambda: D.set_initial(),
        "pred-default": lambda: D.set_predicted(),
        "pred-bw": lambda: D.set_predicted(bw_method=gen.bandwidth(rng)),
        "pred-w": lambda: D.set_predicted(weights=gen.weights(rng, n, q, stacked=False)),
        "pred-given": given,
        "fit": lambda: D.fit(),
        "fit-kw": fit_kw,
        "estimate": lambda: D.estimate(),
        "mud_point": lambda: D.mud_point(),
        "ratio": lambda: D.expected_ratio(),
    }
    def again(part):
        """The very object already in force is set once more."""
        st = mon.state(D)
        v = st[{"initial": "ini", "observed": "ob"}[part]]
        if v is not None:
            (D.set_initial if part == "initial" else D.set_observed)(v)

    ops["initial-again"] = lambda: again("initial")
    ops["observed-again"] = lambda: again("observed")
    if plots:
        ops["plot-param"] = pplot
        if q <= 2:
            ops["plot-obs"] = oplot
    return ops


@scenario("C02", "histories", 960, 12000, need=["estimate equals fresh problem", "expected ratio"])
def c02_histories(c):
    rng = c.rng
    p, q = int(pick(rng, [1, 1, 2])), int(pick(rng, [1, 1, 2]))
    s = setup(rng, n=int(rng.integers(20, 70)), p=p, q=q)
    hist = []
    with DensityMonitor(c) as mon:
        D = build(rng, s)
        ops = history_ops(rng, s, D, mon)
        names = list(ops)
        for step in range(int(rng.integers(3, 13))):
            name = pick(rng, names)
            if name == "plot-obs" and mon.state(D)["pr"] and mon.state(D)["pr"][0] == "given":
                continue  # plotting a user density object needs scipy's class
            hist.append(name)
            ops[name]()
            c.saw("history step")
            if chance(rng, 0.45):
                hist.append("ask")
                ask(c, D, mon, s, order=int(rng.integers(2)))
        ask(c, D, mon, s)
        c.note(history=hist, X=s["X"][:4], y=s["y"][:4])


CORE_OPS = ["weights", "weights-none", "weights-bad", "observed", "observed-default", "initial", "initial-default",
            "pred-default", "pred-bw", "pred-w", "pred-given", "fit", "fit-kw", "estimate", "ratio"]


@scenario("C02", "all-short-histories", 225, 3375, need=["estimate equals fresh problem", "expected ratio"])
def c02_exhaustive(c):
    """Every history of length 3 (quick) / 4 (thorough): case index = the leading operations."""
    rng = c.rng
    m = len(CORE_OPS)
    depth = 3 if c.thorough else 2
    lead = [CORE_OPS[(c.idx // m**k) % m] for k in range(depth)]
    s = setup(rng, n=26, p=int(rng.integers(1, 3)), q=int(rng.integers(1, 3)))
    c.note(lead=lead, X=s["X"][:3])
    with DensityMonitor(c) as mon:
        for last in CORE_OPS:
            D = build(rng, s, forms=False)
            ops = history_ops(rng, s, D, mon, plots=False)
            for k, name in enumerate(lead + [last]):
                ops[name]()
                if k == len(lead) - 1 and chance(rng, 0.8):
                    ask(c, D, mon, s, against_fresh=False)
            ask(c, D, mon, s, order=int(rng.integers(2)))
            c.saw("complete history")
            mon.objs.clear()


@scenario("C02", "plots-between", 192, 1500, need=["estimate equals fresh problem"])
def c02_plots(c):
    """Plots of all kinds between changes of the configuration."""
    from matplotlib import pyplot as plt

    rng = c.rng
    s = setup(rng, n=int(rng.integers(20, 50)), p=2, q=2)
    with DensityMonitor(c) as mon:
        D = build(rng, s)
        ops = history_ops(rng, s, D, mon)
        sets = ["weights", "observed", "initial", "pred-bw", "pred-w", "initial-default"]
        hist = []
        for _ in range(4):
            o = pick(rng, sets)
            hist.append(o)
            ops[o]()
            for pl in rng.permutation(4)[:2]:
                hist.append(int(pl))
                [lambda: ops["plot-param"](), lambda: ops["plot-obs"](), lambda: D.plot_qoi(), lambda: D.plot_params_2d()][pl]()
                plt.close("all")
            ask(c, D, mon, s)
        c.note(history=hist, X=s["X"][:4])


@scenario("C02", "one-change", 384, 3000, need=["estimate equals fresh problem"])
def c02_one_change(c):
    """Fully configured and solved, then exactly one factor changes (also back again)."""
    rng = c.rng
    s = setup(rng, p=int(rng.integers(1, 4)), q=int(rng.integers(1, 3)), n=int(rng.integers(30, 120)))
    with DensityMonitor(c) as mon:
        D = build(rng, s)
        D.set_initial(gen.density(rng, s["box"]))
        D.set_observed(gen.density(rng, gen.ybox(s["y"])))
        ops = history_ops(rng, s, D, mon, plots=False)
        ops[pick(rng, ["pred-default", "pred-bw", "pred-given"])]()
        ask(c, D, mon, s)
        seq = []
        for _ in range(4):
            o = pick(rng, ["weights", "weights-none", "observed", "observed-default", "initial", "pred-default",
                           "pred-bw", "pred-w", "pred-given", "weights-bad", "initial-again", "observed-again"])
            seq.append(o)
            ops[o]()
            ask(c, D, mon, s, order=int(rng.integers(2)))
        c.note(seq=seq, X=s["X"][:4])


@scenario("C02", "two-problems", 192, 1500, need=["estimate equals fresh problem"])
def c02_two(c):
    """Interleaved histories over two problems sharing arrays and density objects."""
    rng = c.rng
    s = setup(rng, n=int(rng.integers(20, 60)), p=1, q=int(rng.integers(1, 3)))
    with DensityMonitor(c) as mon:
        A, B = build(rng, s, forms=False), build(rng, s, forms=False)
        oa, ob_ = history_ops(rng, s, A, mon, plots=False), history_ops(rng, s, B, mon, plots=False)
        hist = []
        for _ in range(8):
            which = int(rng.integers(2))
            o = pick(rng, CORE_OPS)
            hist.append((which, o))
            (oa, ob_)[which][o]()
            if chance(rng, 0.4):
                ask(c, (A, B)[1 - which], mon, s)
        ask(c, A, mon, s)
        ask(c, B, mon, s)
        c.note(hist=[f"{a}{b}" for a, b in hist], X=s["X"][:4])


# ------------------------------------------------------------------ C03
rule("C03", "Weight arrays of every form (lists, stacked rows, integers, zeros, scalings) given at construction, by set_weights and by set_predicted; answers are judged against the element-wise product semantics, against scaled weights and against problems without the zero-weight samples.")


@scenario("C03", "semantics", 1200, 10000, need=["estimate: maximal", "expected ratio", "scaled weights: ratio"])
def c03_semantics(c):
    rng = c.rng
    s = setup(rng, p=int(rng.integers(1, 3)), q=int(rng.integers(1, 3)), n=int(rng.integers(24, 120)))
    n, q = s["y"].shape
    w = None
    while w is None:
        w = gen.weights(rng, n, q)
    s["w"] = None
    note(c, s)
    c.note(weights=w)
    norm = chance(rng, 0.5)
    via = pick(rng, ["ctor", "set", "pred"])
    with DensityMonitor(c) as mon:

        def make(wt, via=via):
            kw = {} if s["domain"] is None else {"domain": s["domain"]}
            if via == "ctor":
                D = DP(s["X"], s["y"], weights=wt, normalize=norm, **kw)
            else:
                D = DP(s["X"], s["y"], **kw)
            D.set_initial(s["ini"])
            if s["ob"] is not None:
                D.set_observed(s["ob"])
            if via == "set":
                D.set_weights(wt, normalize=norm)
            elif via == "pred":
                D.set_predicted(weights=wt)
            return D

        D = make(gen.form(rng, w))
        e, r = D.estimate(), D.expected_ratio()
        # element-wise product given as one vector
        comb = gen.combined(w, n)
        D1 = make(comb)
        c.close("stacked = product: ratio", D1.expected_ratio(), r, rtol=1e-9)
        # positive scaling
        k = float(10.0 ** rng.uniform(-6, 6))
        D2 = make(np.asarray(w, dtype=float) * (k if np.ndim(w) == 1 else k ** (1 / len(w))))
        c.close("scaled weights: ratio", D2.expected_ratio(), r, rtol=1e-8)
        inn, ob, pr = mon.values(mon.state(D))
        if clear_best(ref.updated(inn, comb, ob, pr)) is not None:
            c.same("stacked = product: estimate", D1.estimate(), e)
            c.same("scaled weights: estimate", D2.estimate(), e)
        # another route of giving the same weights
        D3 = make(gen.form(rng, w), via=pick(rng, ["ctor", "set", "pred"]))
        c.close("any route: ratio", D3.expected_ratio(), r, rtol=1e-9)
        D3.estimate()


@scenario("C03", "zero = absent", 960, 8000, need=["zero weight = absent: ratio", "zero weight = absent: estimate"])
def c03_zero(c):
    rng = c.rng
    p, q = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    n = int(rng.integers(30, 120))
    X, box = gen.samples(rng, n, p)
    y = gen.model(rng, X, box, q)
    keep = rng.random(n) < rng.uniform(0.3, 0.95)
    keep[rng.choice(n, q + 12, replace=False)] = True
    w = rng.uniform(0.1, 2, n) if chance(rng, 0.7) else np.ones(n)
    wz = w * keep
    rows = chance(rng, 0.3)
    if chance(rng, 0.25):  # excluded samples far away from everything
        y[~keep] += rng.uniform(10, 200)
    ini = gen.density(rng, box) if chance(rng, 0.5) else None
    ob = gen.density(rng, gen.ybox(y[keep])) if chance(rng, 0.7) else None
    bw = gen.bandwidth(rng)
    given = dist.norm(loc=y[keep].mean(axis=0), scale=np.ptp(y[keep], axis=0)) if chance(rng, 0.3) else None
    c.note(X=X, y=y, wz=wz, given=given is not None)

    def make(X, y, w):
        D = DP(X, y, domain=box, weights=w)
        D.set_initial(ini)
        if ob is not None:
            D.set_observed(ob)
        D.set_predicted(given) if given is not None else D.set_predicted(bw_method=bw)
        return D

    with DensityMonitor(c) as mon:
        full = make(X, y, np.vstack([w, keep * 1.0]) if rows else wz)
        part = make(X[keep], y[keep], w[keep])
        rf, rp = full.expected_ratio(), part.expected_ratio()
        if np.isfinite(rp) and 0 < rp < 1e200:
            c.close("zero weight = absent: ratio", rf, rp, rtol=1e-7)
        inn, obv, pr = mon.values(mon.state(part))
        up = ref.updated(inn, w[keep], obv, pr)
        e = full.estimate()
        if clear_best(up) is not None:
            c.same("zero weight = absent: estimate", e, part.estimate())


@scenario("C03", "refused", 480, 3000, need=["wrong length refused", "unchanged after refusal"])
def c03_refused(c):
    rng = c.rng
    s = setup(rng, p=1, q=1, n=int(rng.integers(12, 60)))
    s["pr"] = s["pr"] if s["pr"] and s["pr"][0] == "kde" else None
    n = len(s["X"])
    note(c, s)
    m = int(pick(rng, [k for k in (1, 2, n - 1, n + 1, 2 * n, n // 2) if k != n]))
    bad = rng.uniform(0.5, 2, (int(rng.integers(1, 4)), m))
    if chance(rng, 0.2):
        bad = rng.uniform(0.5, 2, (n, 1))  # column instead of row
    elif chance(rng, 0.5):
        bad = bad[0]
    bad = gen.form(rng, bad)
    c.note(bad=np.shape(bad))
    with DensityMonitor(c):
        c.refused("wrong length refused", lambda: DP(s["X"], s["y"], weights=bad), (AssertionError, ValueError), "constructor")
        D = apply(rng, build(rng, s), s)
        solved = chance(rng, 0.7)
        if solved:
            e, r = D.estimate(), D.expected_ratio()
        norm = chance(rng, 0.5)
        c.refused("wrong length refused", lambda: D.set_weights(bad, normalize=norm), (AssertionError, ValueError), "set_weights")
        c.refused("wrong length refused", lambda: D.set_predicted(weights=bad), (AssertionError, ValueError), "set_predicted")
        e2, r2 = D.estimate(), D.expected_ratio()  # the monitor's shadow is unchanged
        if solved:
            c.same("unchanged after refusal", e2, e)
            c.close("unchanged after refusal", r2, r, rtol=1e-12)


@scenario("C03", "normalised", 240, 2000)
def c03_normalised(c):
    """The combined vector divided by its Euclidean norm (visible in the stored weights)."""
    rng = c.rng
    n = int(rng.integers(5, 60)) if chance(rng, 0.7) else int(10.0 ** rng.uniform(1.8, 4.3))
    w = rng.uniform(0, 5, (int(rng.integers(1, 4)), n)) * 10.0 ** rng.integers(-3, 4)
    w = w[0] if len(w) == 1 and chance(rng, 0.5) else w
    k = rng.random()
    if k < 0.3:
        w = np.ceil(w).astype(int)
    elif k < 0.5:  # in very small or large units
        w = w * 10.0 ** rng.integers(-20, 21)
    c.note(w=w)
    X = rng.random((n, 1))
    D = DP(X, X - 0.5, domain=[0, 1])
    got = {}
    for norm in (True, False):
        D.set_weights(gen.form(rng, w), normalize=norm)
        got[norm] = getattr(D, "_weights", None)
    got["ctor"] = getattr(DP(X, X, domain=[0, 1], weights=gen.form(rng, w), normalize=True), "_weights", None)
    D.set_weights(None)
    ones = getattr(D, "_weights", None)
    if got[True] is None:
        return
    comb = gen.combined(w, n)
    c.close("combined weights", np.asarray(got[False], float), np.asarray(comb, float), rtol=1e-12)
    nrm = comb / np.sqrt(np.sum(np.asarray(comb, float) ** 2))
    c.close("normalised weights", got[True], nrm, rtol=1e-12)
    c.close("normalised weights", got["ctor"], nrm, rtol=1e-12)
    c.same("omitted weights", np.asarray(ones, float), np.ones(n))


# ------------------------------------------------------------------ C04
rule("C04", "Problems built with every subset of inputs left at its default, in all dimensions and input forms, compared with the documented defaults recomputed by the shadow model.")


@scenario("C04", "subsets", 1536, 12000, need=["estimate: maximal", "expected ratio", "default domain"])
def c04_subsets(c):
    rng = c.rng
    s = setup(rng, n=int(rng.integers(24, 120)))
    bits = c.idx % 32
    if bits & 1 and chance(rng, 0.4):  # a stated domain that is not the range of the samples
        box = s["box"]
        wd = box[:, 1] - box[:, 0]
        s["box"] = box = np.column_stack([box[:, 0] + wd * rng.uniform(-0.5, 0.3, len(wd)), box[:, 1] + wd * rng.uniform(-0.3, 0.5, len(wd))])
        if not np.all((s["X"] >= box[:, 0]) & (s["X"] <= box[:, 1]), axis=1).sum() > 8:
            s["box"] = np.column_stack([s["X"].min(axis=0) - wd, s["X"].max(axis=0)])
    s["domain"] = s["box"] if bits & 1 else None
    s["ini"] = gen.density(rng, s["box"]) if bits & 2 else None
    s["ob"] = gen.density(rng, gen.ybox(s["y"])) if bits & 4 else None
    s["pr"] = predicted(rng, s["y"]) if bits & 8 else None
    s["w"] = gen.weights(rng, len(s["X"]), s["y"].shape[1]) if bits & 16 else None
    note(c, s, bits=bits)
    p, q = s["X"].shape[1], s["y"].shape[1]
    with DensityMonitor(c) as mon:
        kw = {}
        pad = None
        if s["domain"] is not None:
            kw["domain"] = gen.form(rng, s["box"][0] if p == 1 and chance(rng, 0.5) else s["box"])
            if chance(rng, 0.3):
                kw["pad_domain"] = 0.5  # irrelevant when a domain is given
        elif chance(rng, 0.6):
            pad = kw["pad_domain"] = float(pick(rng, [0.0, 0.05, 0.25, 1.0, 3.0]))
        if s["w"] is not None:
            kw["weights"] = gen.form(rng, s["w"])
        X = s["X"][:, 0] if p == 1 and chance(rng, 0.6) else s["X"]
        y = s["y"][:, 0] if q == 1 and chance(rng, 0.6) else s["y"]
        D = DP(gen.form(rng, X), gen.form(rng, y), **kw)
        c.same("sizes", [D.n_params, D.n_features, D.n_samples], [p, q, len(X)])
        if s["domain"] is None:
            lo, hi = s["X"].min(axis=0), s["X"].max(axis=0)
            pd = 0.1 if pad is None else pad
            c.close("default domain", D.domain, np.column_stack([lo - pd * (hi - lo), hi + pd * (hi - lo)]), rtol=1e-10)
        else:
            c.same("given domain", D.domain, s["box"])
        if s["ini"] is not None:
            D.set_initial(s["ini"])
        elif chance(rng, 0.5) or s["pr"] is not None:
            D.set_initial(*pick(rng, [(), (None,)]))
        if s["ob"] is not None:
            D.set_observed(s["ob"])
        elif chance(rng, 0.5):
            D.set_observed()
        if s["pr"] is not None:
            set_predicted(D, s["pr"])
        elif chance(rng, 0.3):
            D.set_predicted()
        elif chance(rng, 0.4):
            D.set_initial(s["ini"])
            D.fit(bw_method=gen.bandwidth(rng))
        for o in rng.permutation(2):
            D.estimate() if o else D.expected_ratio()
        if s["domain"] is None:
            c.close("default domain", D.domain, mon.state(D)["domain"], rtol=1e-12)


@scenario("C04", "bandwidth", 384, 3000, need=["bandwidth: expected ratio"])
def c04_bandwidth(c):
    """The requested bandwidth rule, through set_predicted and through fit."""
    rng = c.rng
    n, q = int(rng.integers(20, 80)), int(rng.integers(1, 4))
    X = rng.random((n, 1))
    y = rng.normal(size=(n, q)) * 10.0 ** rng.integers(-2, 3, q)
    w = gen.weights(rng, n, q)
    bw = gen.bandwidth(rng)
    ob = dist.norm(loc=y.mean(axis=0), scale=y.std(axis=0))
    c.note(y=y, w=w if w is not None else "none", bw=str(bw))
    wc = gen.combined(w, n)
    pr = ref.kde_at(y, wc, bw)
    if np.sum(wc) == 0:
        return
    want = np.sum(wc * ref.ratio(ref.rows_of(ob, y), pr, wc)) / np.sum(wc)
    for route in range(3):
        D = DP(X, y, weights=w)
        D.set_observed(ob)
        D.set_initial()
        if route == 0:
            D.set_predicted(bw_method=bw)
        elif route == 1:
            D.fit(bw_method=bw)
        else:
            D.set_predicted(None, bw, w)
        c.close("bandwidth: expected ratio", D.expected_ratio(), want, rtol=1e-8, msg=f"route {route}")


@scenario("C04", "predicted-kwargs", 384, 3000, need=["kwargs: expected ratio", "kwargs received"])
def c04_kwargs(c):
    rng = c.rng
    s = setup(rng, n=int(rng.integers(12, 80)))
    y = s["y"]
    seen = []

    class Rec:
        def __init__(self, inner):
            self.inner = inner

        def pdf(self, x, **kw):
            seen.append((np.shape(x), dict(kw)))
            return self.inner.pdf(x, **kw)

    b = gen.ybox(y)
    w = b[:, 1] - b[:, 0]
    inner = gen.Scaled([dist.norm(b[j].mean(), w[j]) for j in range(y.shape[1])])
    kw = {"scale": float(rng.uniform(0.5, 2)), "shift": float(rng.normal() * 0.1)}
    if chance(rng, 0.3):
        kw.pop("shift")
    note(c, s, **kw)
    D = DP(s["X"], y, weights=s["w"])
    D.set_initial(s["ini"])
    if s["ob"] is not None:
        D.set_observed(s["ob"])
    via_fit = chance(rng, 0.4)
    if via_fit:
        D.fit(distribution=Rec(inner), **kw)
    else:
        D.set_predicted(Rec(inner), **kw)
    c.check("kwargs received", any(k == kw and sh == y.shape for sh, k in seen), "pdf saw", seen, "not", kw)
    ob = s["ob"] or dist.norm()
    wc = gen.combined(s["w"], len(y))
    want = np.sum(wc * ref.ratio(ref.rows_of(ob, y), ref.rows_of(inner, y, **kw), wc)) / np.sum(wc)
    c.close("kwargs: expected ratio", D.expected_ratio(), want, rtol=1e-9)


@scenario("C04", "scalar-vectors", 240, 2000, need=["vector input: ratio"])
def c04_vectors(c):
    """Vectors mean repeated samples of a scalar: same answers as columns."""
    rng = c.rng
    n = int(rng.integers(5, 80))
    x = rng.normal(size=n) * rng.uniform(0.1, 10)
    yv = np.sin(x) + 0.2 * x
    vx, vy = gen.form(rng, x), gen.form(rng, yv)
    c.note(x=x)
    pad = pick(rng, [{}, {"pad_domain": 0.3}])
    A = DP(vx, vy, **pad)
    B = DP(x.reshape(-1, 1), yv.reshape(-1, 1), **pad)
    C = DP(x.reshape(-1, 1), vy, **pad)
    c.same("vector input: sizes", [A.n_params, A.n_features, A.n_samples], [1, 1, n])
    c.same("vector input: domain", A.domain, B.domain)
    for D in (A, C):
        c.close("vector input: ratio", D.expected_ratio(), B.expected_ratio(), rtol=1e-12)
        c.same("vector input: estimate", D.estimate(), B.estimate())
        c.check("vector input: estimate", np.shape(D.estimate()) == (1,))


# ------------------------------------------------------------------ C05
rule("C05", "Expected ratios are recomputed exactly (monitor) and, for samples drawn from the initial density with the exact push-forward as predicted density, compared with the reachable probability mass within 7 standard errors.")


@scenario("C05", "exact", 1200, 10000, need=["expected ratio"])
def c05_exact(c):
    rng = c.rng
    s = setup(rng, big=True)
    note(c, s)
    with DensityMonitor(c):
        D = apply(rng, build(rng, s), s)
        if chance(rng, 0.5):
            D.estimate()
        a = D.expected_ratio()
        b = D.expected_ratio()
        if np.isfinite(a):
            c.same("repeated", a, b)
        D.fit()
        D.expected_ratio()
        c.check("scalar result", np.ndim(a) == 0)


@scenario("C05", "predictability", 640, 4000, need=["ratio near reachable mass", "nothing reachable gives zero"])
def c05_predictable(c):
    rng = c.rng
    q = int(rng.integers(1, 4))
    n = int(pick(rng, [400, 1500, 6000]))
    kind = pick(rng, ["normal", "uniform"])
    regime = pick(rng, ["inside", "partial", "outside"])
    weighted = chance(rng, 0.4)
    loc, sc = rng.normal(size=q), rng.uniform(0.2, 4, q)
    c.note(q=q, n=n, kind=kind, regime=regime, weighted=weighted, loc=loc, sc=sc)
    w = None
    if kind == "normal":
        mean, sd = rng.normal(size=q), rng.uniform(0.3, 2, q)
        ini = dist.norm(mean, sd)
        X = mean + sd * rng.normal(size=(n, q))
        if weighted:  # drawn from a wider proposal, weighted back to the initial
            X = mean + 1.4 * sd * rng.normal(size=(n, q))
            w = np.prod(ini.pdf(X) / dist.norm(mean, 1.4 * sd).pdf(X), axis=1)
        pr = dist.norm(loc + sc * mean, sc * sd)
        o_loc, o_sd = loc + sc * mean + 0.3 * sc * sd * rng.normal(size=q), sc * sd * rng.uniform(0.3, 0.7, q)
        ob, mass = dist.norm(o_loc, o_sd), 1.0
        peak = float(np.prod(sc * sd / o_sd))
        if regime == "outside":
            ob, mass = dist.norm(o_loc + 80 * sc * sd, o_sd * 0.5), 0.0
        regime = "inside" if regime == "partial" else regime
    else:
        ini = dist.uniform(np.zeros(q), np.ones(q))
        X = rng.random((n, q))
        if weighted:
            X = rng.beta(1.5, 1.2, (n, q))
            w = 1 / np.prod(dist.beta(1.5, 1.2).pdf(X), axis=1)
            w = np.minimum(w, 1e3)
        pr = dist.uniform(loc, sc)
        if regime == "inside":
            a = rng.uniform(0.05, 0.4, q)
            ob, mass = dist.uniform(loc + a * sc, 0.5 * sc), 1.0
        elif regime == "partial":
            a = rng.uniform(0.5, 0.95, q)
            ob, mass = dist.uniform(loc + a * sc, sc), float(np.prod(1 - a))
        else:
            ob, mass = dist.uniform(loc + 1.5 * sc, sc), 0.0
    y = loc + sc * X
    D = DP(X, y, weights=w)
    D.set_initial(ini)
    D.set_observed(ob)
    D.set_predicted(pr)
    got = D.expected_ratio()
    r = ref.ratio(ref.rows_of(ob, y), ref.rows_of(pr, y), np.ones(n))
    wn = np.ones(n) / n if w is None else w / w.sum()
    se = np.sqrt(np.sum(wn**2 * (r - mass) ** 2))
    if kind == "uniform":  # the ratio takes two values: few or no hits say nothing about the spread
        se = max(se, np.sqrt(mass * (1 - mass) * np.sum(wn**2)))
        peak = 1.0
    se += 2 * peak * np.max(wn)
    if mass == 0:
        c.check("nothing reachable gives zero", abs(got) < 1e-100, "expected ratio", got)
    else:
        c.check("ratio near reachable mass", abs(got - mass) <= 7 * se + (0.02 if weighted else 1e-9),
                "expected ratio", got, "for reachable mass", mass, "standard error", se)


# ------------------------------------------------------------------ C06
rule("C06", "Each problem is solved, then solved again with permuted samples and with parameters/observables expressed in other units (densities transformed consistently); answers are compared.")


class Affine:
    """Density of a*x+b per component (a>0) given the density of x."""

    def __init__(self, d, a, b):
        self.d, self.a, self.b = d, np.asarray(a), np.asarray(b)

    def pdf(self, x):
        v = np.asarray(self.d.pdf((np.asarray(x) - self.b) / self.a))
        return v / self.a if v.ndim == 2 else v / np.prod(self.a)

    def logpdf(self, x):
        return np.asarray(self.d.logpdf((np.asarray(x) - self.b) / self.a)) - np.log(self.a)


@scenario("C06", "density", 960, 8000, need=["permuted: ratio", "units: ratio", "permuted: estimate", "units: estimate"])
def c06_density(c):
    rng = c.rng
    s = setup(rng, n=int(pick(rng, [int(rng.integers(24, 150)), 700])))
    if s["pr"] and s["pr"][0] == "given" and s["pr"][2]:
        s["pr"] = None
    X, y = s["X"], s["y"]
    n, p = X.shape
    q = y.shape[1]
    w = s["w"]
    note(c, s)
    bw = gen.bandwidth(rng)
    ini, ob = s["ini"], s["ob"] or dist.norm()
    default_ob = s["ob"] is None and chance(rng, 0.5)

    def make(X, y, w, dom, ini, ob, pr):
        D = DP(X, y, domain=dom, weights=w)
        D.set_initial(ini)
        if ob is not None:
            D.set_observed(ob)
        D.set_predicted(pr) if pr is not None else D.set_predicted(bw_method=bw)
        return D.estimate(), D.expected_ratio(), D

    pr = s["pr"][1] if s["pr"] and s["pr"][0] == "given" else None
    with DensityMonitor(c) as mon:
        e, r, D = make(X, y, w, s["domain"], ini, None if default_ob else ob, pr)
        inn, obv, prv = mon.values(mon.state(D))
    up = ref.updated(inn, gen.combined(w, n), obv, prv)
    best = clear_best(up)
    fin = np.isfinite(r) and 1e-250 < abs(r) < 1e250
    # reorder
    o = pick(rng, [np.argsort(X[:, 0]), np.arange(n)[::-1], rng.permutation(n)])
    e1, r1, _ = make(X[o], y[o], None if w is None else np.asarray(w)[..., o], s["domain"], ini, None if default_ob else ob, pr)
    if fin:
        c.close("permuted: ratio", r1, r, rtol=1e-8)
    if best is not None:
        c.same("permuted: estimate", e1, e)
    # change of units of parameters and (unless the default observed is used) observables
    big = pick(rng, [1, 1, 1, 4])  # also far-fetched units
    a = 10.0 ** (big * rng.uniform(-4, 4, p))
    b = rng.normal(size=p) * a * np.abs(X).max(axis=0) * pick(rng, [0, 1])
    A = np.ones(q) if default_ob else 10.0 ** (big * rng.uniform(-3.5, 3.5, q))
    B = np.zeros(q) if default_ob else rng.normal(size=q) * A * np.abs(y).max(axis=0) * pick(rng, [0, 1])
    dom = None if s["domain"] is None else s["domain"] * a[:, None] + b[:, None]
    X2 = X * a + b
    e2, r2, _ = make(X2, y * A + B, w, dom, None if ini is None else Affine(ini, a, b),
                     None if default_ob else Affine(ob, A, B), None if pr is None else Affine(pr, A, B))
    edge = isinstance(ob, type(dist.uniform())) or isinstance(ob, gen.Product) or pr is not None
    if fin:
        if edge and abs(r2 - r) > 1e-6 * abs(r):
            c.saw("units: support edge, not judged")  # a sample within rounding of a support edge
        else:
            c.close("units: ratio", r2, r, rtol=1e-5)
    if best is not None and clear_best(up, 1e-4) is not None:
        c.same("units: estimate", e2, X2[best])


@scenario("C06", "bayes", 640, 5000, need=["Bayes permuted", "Bayes units"])
def c06_bayes(c):
    rng = c.rng
    p, q = int(rng.integers(1, 4)), int(rng.integers(1, 12))
    n = int(rng.integers(3, 120))
    X, box = gen.samples(rng, n, p)
    y = gen.model(rng, X, box, q)
    log = chance(rng, 0.5)
    sd = y.std(axis=0) * rng.uniform(0.3, 3, q) + 1e-6
    ll = dist.norm(loc=y[int(rng.integers(n))] + 0.3 * sd * rng.normal(size=q), scale=sd)
    pr = gen.density(rng, box) if chance(rng, 0.5) else None
    c.note(X=X, y=y, log=log)
    domain = box if chance(rng, 0.6) else None

    def make(X, y, dom, pr, ll):
        B = BP(X, y, dom)
        if pr is not None:
            B.set_prior(pr)
        B.set_likelihood(ll, log=log)
        return B.estimate()

    with np.errstate(all="ignore"):
        st = pr or dist.uniform(box[:, 0] - 0.1 * np.ptp(box, axis=1), 1.2 * np.ptp(box, axis=1))
        lp = np.log(ref.rows_of(st, X)) + ll.logpdf(y).sum(axis=1)
    srt = np.sort(lp)
    if not np.isfinite(srt[-1]) or srt[-1] < -600 or (n > 1 and srt[-2] > srt[-1] - 1e-6):
        c.saw("tie or underflow, not judged")
        return
    best = int(np.argmax(lp))
    c.same("Bayes permuted", make(X, y, domain, pr, ll), X[best])
    o = rng.permutation(n)
    c.same("Bayes permuted", make(X[o], y[o], domain, pr, ll), X[best])
    a, A = 10.0 ** rng.uniform(-3, 3, p), 10.0 ** rng.uniform(-2, 2, q)
    b, B = rng.normal(size=p) * a, rng.normal(size=q) * A
    if srt[-1] - np.sum(np.log(A)) - np.sum(np.log(a)) < -600 and not log:
        return
    X2 = X * a + b
    dom = None if domain is None else domain * a[:, None] + b[:, None]
    c.same("Bayes units", make(X2, y * A + B, dom, None if pr is None else Affine(pr, a, b), Affine(ll, A, B)), X2[best])


# ------------------------------------------------------------------ C07
rule("C07", "Random Bayes problems and call histories under the Bayes monitor, which recomputes prior x likelihood for every sample from the distributions set last.")


def bayes_setup(rng, big=False):
    p = int(pick(rng, [1, 1, 2, 3, 5]))
    q = int(pick(rng, [1, 2, 3, 8, 40]))
    n = gen.n_samples(rng, big, lo=2)
    X, box = gen.samples(rng, n, p)
    y = gen.model(rng, X, box, q)
    return X, box, y


def likelihood(rng, y):
    q = y.shape[1]
    sd = (y.std(axis=0) + 1e-3) * np.sqrt(q) * rng.uniform(0.3, 3)
    loc = y[int(rng.integers(len(y)))] + 0.5 * sd * rng.normal(size=q)
    k = int(rng.integers(5))
    if q == 1 and chance(rng, 0.5):  # several data for one predicted value
        m = int(rng.integers(2, 12))
        return dist.norm(loc=loc + sd * rng.normal(size=m), scale=sd * np.sqrt(m))
    if k == 0:
        return dist.laplace(loc=loc, scale=sd)
    if k == 1:
        return dist.t(df=4, loc=loc, scale=sd)
    if k == 2 and q <= 3:
        return dist.uniform(loc=loc - 2 * sd, scale=4 * sd)
    return dist.norm(loc=loc, scale=sd if chance(rng, 0.7) else float(sd[0]))


@scenario("C07", "random", 1280, 12000, need=["MAP: maximal"])
def c07_random(c):
    rng = c.rng
    X, box, y = bayes_setup(rng, big=True)
    c.note(X=X, y=y)
    with BayesMonitor(c):
        dom = gen.restated(rng, box) if chance(rng, 0.3) else box
        B = BP(gen.form(rng, X), gen.form(rng, y), *([gen.form(rng, dom)] if chance(rng, 0.6) else []))
        c.same("sizes", [B.n_params, B.n_features, B.n_samples], [X.shape[1], y.shape[1], len(X)])
        acts = [lambda: B.set_likelihood(likelihood(rng, y), *([True] if chance(rng, 0.5) else []))]
        if chance(rng, 0.7):
            acts.append(lambda: B.set_prior(gen.density(rng, box) if chance(rng, 0.8) else None))
        for i in rng.permutation(len(acts)):
            acts[i]()
        try:
            a = B.estimate()
        except ValueError:
            c.saw("refused (judged by C08)")
            return
        c.same("map_point equals estimate", B.map_point(), a)


@scenario("C07", "histories", 960, 8000, need=["MAP: maximal"])
def c07_histories(c):
    from matplotlib import pyplot as plt

    rng = c.rng
    p, q, n = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(12, 60))
    X, box = gen.samples(rng, n, p)
    y = gen.model(rng, X, box, q)
    hist = []
    with BayesMonitor(c) as mon:
        B = BP(X, y, box)
        B.set_likelihood(dist.norm(loc=y[0], scale=y.std(axis=0) + 0.1))

        def spread():
            st = dict(mon.state(B))
            mon.fill(st)
            lp = mon.logpost(st)
            pw = np.exp(lp - lp.max())
            return pw.sum() ** 2 / np.sum(pw**2) > 3 and (st["log"] or lp.max() > -600)

        def plot():
            if not spread():
                return
            B.plot_param_space(param_idx=int(rng.integers(p)), aff=8, map_opts=pick(rng, [None, {"color": "g"}]),
                               ps_opts=pick(rng, [None, {}]), pr_opts=pick(rng, [None, {}]))
            plt.close("all")

        def oplot():
            if q < 3 and spread():
                B.plot_obs_space(obs_idx=int(rng.integers(q)), y_range=gen.ybox(y), aff=8)
                plt.close("all")

        b = box + np.array([[-1, 1]]) * np.ptp(box, axis=1)[:, None] * 0.3
        ops = {
            "prior": lambda: B.set_prior(gen.density(rng, b, kind=int(pick(rng, [0, 3])))),
            "prior-default": lambda: B.set_prior(),
            "ll": lambda: B.set_likelihood(dist.norm(loc=y[int(rng.integers(n))], scale=(y.std(axis=0) + 0.01) * rng.uniform(0.5, 3))),
            "ll-log": lambda: B.set_likelihood(dist.laplace(loc=y[int(rng.integers(n))], scale=(y.std(axis=0) + 0.01) * rng.uniform(0.5, 3)), log=True),
            "fit": lambda: B.fit(),
            "ask": lambda: B.estimate(),
            "map": lambda: B.map_point(),
            "plot": plot,
            "oplot": oplot,
        }
        names = list(ops)
        for _ in range(int(rng.integers(4, 12))):
            o = pick(rng, names)
            hist.append(o)
            ops[o]()
            c.saw("history step")
            if chance(rng, 0.5):
                B.estimate()
        B.estimate()
    c.note(hist=hist, X=X[:3])


@scenario("C07", "all-short-histories", 125, 625, need=["MAP: maximal"])
def c07_exhaustive(c):
    """Every order of three (quick) or four operations."""
    rng = c.rng
    names = ["prior", "prior-default", "ll", "ll-log", "ask"]
    k = 4 if c.thorough else 3
    seq = [names[(c.idx // 5**j) % 5] for j in range(k)]
    n, p, q = 30, int(rng.integers(1, 3)), int(rng.integers(1, 4))
    X, box = gen.samples(rng, n, p)
    y = gen.model(rng, X, box, q)
    c.note(seq=seq, X=X[:3])
    sc = y.std(axis=0) + 0.01
    with BayesMonitor(c):
        B = BP(X, y, box)
        B.set_likelihood(dist.norm(y[3], sc))
        for o in seq:
            if o == "prior":
                B.set_prior(dist.norm(X[int(rng.integers(n))], np.ptp(box, axis=1) * 0.3))
            elif o == "prior-default":
                B.set_prior()
            elif o in ("ll", "ll-log"):
                B.set_likelihood(dist.norm(y[int(rng.integers(n))], sc * rng.uniform(0.3, 2)), log=o == "ll-log")
            else:
                B.estimate()
            if chance(rng, 0.5):
                B.map_point()
        B.estimate()


@scenario("C07", "planted-winner", 256, 2000, need=["MAP is the planted sample"])
def c07_planted(c):
    rng = c.rng
    p, q = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    n = int(pick(rng, [1, 2, 60, 4000, 11000 if c.thorough else 5100]))
    i = int(pick(rng, [0, n - 1, int(rng.integers(n))]))
    X = rng.random((n, p))
    y = rng.uniform(1, 2, (n, q)) * rng.choice([-1, 1], (n, q))
    y[i] = rng.normal(size=q) * 1e-3
    c.note(n=n, i=i, p=p, q=q, X=X[:3])
    B = BP(X, y, [[0, 1]] * p)
    B.set_likelihood(dist.norm(loc=np.zeros(q), scale=np.full(q, 0.3)), log=chance(rng, 0.5))
    c.same("MAP is the planted sample", B.map_point(), X[i])
    # the prior decides between samples of equal likelihood
    y2 = np.zeros((n, q))
    B = BP(X, y2, [[0, 1]] * p)
    B.set_likelihood(dist.norm(loc=np.zeros(q), scale=np.full(q, 1.3)), log=chance(rng, 0.5))
    B.set_prior(dist.norm(loc=X[i], scale=np.full(p, 0.4)))
    c.same("MAP is the planted sample", B.map_point(), X[i])


@scenario("C07", "undefined posterior", 320, 4000, need=["defined sample reported", "nothing defined is positive"])
def c07_undefined(c):
    """Priors without bound at the edge of their support, likelihoods of bounded support, predictions that failed."""
    rng = c.rng
    p, q = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    n = int(rng.integers(3, 60))
    X = rng.uniform(0.02, 0.98, (n, p))
    edge = rng.random(n) < pick(rng, [0.1, 0.5])
    edge[int(rng.integers(n))] = True
    keep = int(rng.integers(n))
    edge[keep] = False
    X[edge, int(rng.integers(p))] = pick(rng, [0.0, 1.0])
    y = rng.uniform(0, 1, (n, q))
    kind = int(rng.integers(3))
    log = chance(rng, 0.5)
    y[edge] = np.nan if kind == 2 else pick(rng, [7.0, -9.0])  # nothing likely there
    nowhere = kind == 0 and chance(rng, 0.3)  # nor anywhere else
    if nowhere:
        y[:] = 9.0
    B = BP(X, y, [[0, 1]] * p)
    if kind < 2:
        B.set_prior(dist.beta(0.5, 0.5))
    ll = dist.uniform(-0.5, 2) if kind < 2 else dist.norm(0.5, 0.4)
    B.set_likelihood(ll, log=log)
    if nowhere:
        c.note(X=X, log=log, kind="nowhere")
        c.refused("nothing defined is positive", B.map_point, ValueError)
        return
    c.note(X=X, y=y, log=log, kind=kind)
    with np.errstate(all="ignore"):
        val = np.ones(n) if kind == 2 else dist.beta(0.5, 0.5).pdf(X).prod(axis=1)
        val = np.where(edge, -1.0, val * ll.pdf(y).prod(axis=1))
    ref.judge_argmax(c, "defined sample", B.map_point(), X, val)
    c.saw("defined sample reported")


@scenario("C07", "examples", 6, 40, need=["MAP: maximal"])
def c07_examples(c):
    from mud.examples import simple

    rng = c.rng
    kw = dict(num_samples=int(rng.integers(60, 900)), num_obs=int(rng.integers(2, 20)), mu=float(rng.uniform(0.2, 0.8)),
              sigma=float(rng.uniform(0.05, 0.3)), domain=pick(rng, [None, [[0, 1]]]))
    c.note(**kw)
    with BayesMonitor(c):
        B = simple.identity_1D_bayes_prob(**kw)
        B.estimate()


# ------------------------------------------------------------------ C08
rule("C08", "The same Bayes problem is solved with plain and logarithmic likelihood, in ordinary, underflowing and disjoint-support regimes; points, refusals and plotted posteriors are compared with the log posterior recomputed independently.")


@scenario("C08", "agree", 960, 8000, need=["MAP: maximal", "plain and log agree"])
def c08_agree(c):
    rng = c.rng
    X, box, y = bayes_setup(rng)
    c.note(X=X, y=y)
    ll = likelihood(rng, y)
    pr = gen.density(rng, box) if chance(rng, 0.6) else None
    outs, refs = {}, {}
    with BayesMonitor(c) as mon:
        for log in (False, True):
            B = BP(X, y, box)
            if pr is not None:
                B.set_prior(pr)
            B.set_likelihood(ll, log=log)
            try:
                outs[log] = B.map_point()
            except ValueError:
                outs[log] = None
            st = mon.state(B)
            mon.fill(st)
            lp = mon.logpost(st)
    best = np.max(lp)
    if np.isneginf(best):
        c.check("zero posterior refused", outs[True] is None and outs[False] is None, "returned", outs)
        return
    c.check("non-zero posterior accepted in log form", outs[True] is not None, "best log posterior", best)
    if -600 < best:
        c.check("non-zero posterior accepted in plain form", outs[False] is not None, "best log posterior", best)
        srt = np.sort(lp)
        if len(srt) < 2 or srt[-2] < srt[-1] - 1e-8 * max(1, abs(srt[-1])):
            c.same("plain and log agree", outs[False], outs[True])


@scenario("C08", "underflow", 640, 5000, need=["MAP: maximal", "plain form refuses underflow"])
def c08_underflow(c):
    """So much data (or such precise data) that the plain product is zero everywhere."""
    rng = c.rng
    n, p = int(rng.integers(2, 60)), int(rng.integers(1, 4))
    q = int(pick(rng, [1, 5, 60, 400]))
    X = rng.random((n, p))
    y = X @ rng.normal(size=(p, q)) + 0.05 * rng.normal(size=(n, q))
    off = rng.uniform(0.5, 2)
    sd = off / np.sqrt(2 * rng.uniform(900, 5000) / q)
    data = y.mean(axis=0) + 3 * (y.std(axis=0) + off) * rng.choice([-1, 1], q)
    ll = dist.norm(loc=data, scale=sd)
    c.note(n=n, q=q, X=X[:4], sd=sd)
    with BayesMonitor(c) as mon:
        B = BP(X, y, [[0, 1]] * p)
        if chance(rng, 0.5):
            B.set_prior(dist.beta(np.full(p, 2.0), np.full(p, 2.0)))
        B.set_likelihood(ll, log=True)
        B.map_point()
        st = mon.state(B)
        lp = mon.logpost(st)
        c.check("regime", np.max(lp) < -760 or q < 3, "max", np.max(lp))
        B.set_likelihood(ll)
        if np.max(lp) < -800:
            c.refused("plain form refuses underflow", B.map_point, ValueError)
            c.refused("plain form refuses underflow", B.estimate, ValueError)
            B.set_likelihood(ll, log=True)
            B.map_point()  # and works again in log form


@scenario("C08", "tiny-but-positive", 384, 3000, need=["tiny posterior accepted"])
def c08_tiny(c):
    """Posteriors down to 1e-270 are not zero."""
    rng = c.rng
    n = int(rng.integers(2, 40))
    q = int(pick(rng, [1, 2, 10]))
    X = rng.random((n, 1))
    y = np.repeat(X, q, axis=1)
    target = rng.uniform(40, 600)
    data = 1.5
    sd = np.sqrt(q * 0.25 / (2 * target))
    ll = dist.norm(loc=np.full(q, data), scale=sd)
    lp = ll.logpdf(y).sum(axis=1)
    c.note(n=n, q=q, best=float(lp.max()))
    if not -610 < lp.max():
        return
    B = BP(X, y, [[0, 1]])
    for log in (False, True):
        B.set_likelihood(ll, log=log)
        c.same("tiny posterior accepted", B.map_point(), X[int(np.argmax(X[:, 0]))])
    # one positive sample among zeros
    ll = dist.uniform(loc=np.full(q, X[0, 0] - 1e-9), scale=2e-9)
    for log in (False, True):
        B.set_likelihood(ll, log=log)
        c.same("tiny posterior accepted", B.map_point(), X[0])
    # and posteriors towards (and past) the largest number
    q = int(rng.integers(60, 260))
    peak = rng.uniform(200, 760)  # log of the largest posterior
    sd = np.exp(-peak / q) / np.sqrt(2 * np.pi)
    B = BP(X, np.repeat(X, q, axis=1), [[0, 1]])
    j = int(rng.integers(n))
    if np.abs(np.delete(X[:, 0], j) - X[j, 0]).min(initial=1) > 1e-2 * sd:
        ll = dist.norm(loc=np.full(q, X[j, 0]), scale=sd)
        with np.errstate(over="ignore"):
            many = np.sum(np.isinf(ll.pdf(np.repeat(X, q, axis=1)).prod(axis=1))) > 1
        for log in (False, True):
            with np.errstate(over="ignore", invalid="ignore"):
                B.set_likelihood(ll, log=log)
                got = B.map_point()
            if log or not many:
                c.same("huge posterior accepted", got, X[j])


@scenario("C08", "disjoint", 480, 3000, need=["zero posterior refused"])
def c08_disjoint(c):
    rng = c.rng
    n, p, q = int(rng.integers(1, 50)), int(rng.integers(1, 4)), int(rng.integers(1, 5))
    X = rng.random((n, p))
    y = rng.random((n, q))
    k = int(rng.integers(3))
    c.note(X=X, y=y, k=k)
    ll_ok, ll_bad = dist.norm(np.full(q, 0.5), np.full(q, 0.5)), dist.uniform(np.full(q, 3.0), np.ones(q))
    pr_bad = dist.uniform(np.full(p, 2.0), np.ones(p))
    if k == 2:  # each positive somewhere, never together
        ll_bad = dist.uniform(np.r_[0.0, np.zeros(q - 1)], np.r_[0.5, np.ones(q - 1)])
        pr_bad = dist.uniform(np.zeros(p), np.r_[0.5, np.ones(p - 1)])
        y[:, 0] = np.where(X[:, 0] < 0.5, 0.75, 0.25)
    for log in (False, True):
        B = BP(X, y, [[0, 1]] * p)
        B.set_likelihood(ll_bad if k != 1 else ll_ok, log=log)
        if k:
            B.set_prior(pr_bad)
        c.refused("zero posterior refused", B.map_point, ValueError, f"log={log}")
        c.refused("zero posterior refused", B.fit, ValueError, f"log={log}")
        c.refused("zero posterior refused", B.estimate, ValueError, f"log={log}")
        B.set_prior()
        B.set_likelihood(ll_ok, log=log)
        B.map_point()
        c.saw("recovers after refusal")
        B.set_likelihood(ll_bad if k != 1 else ll_ok, log=log)
        if k:
            B.set_prior(pr_bad)
        c.refused("zero posterior refused", B.map_point, ValueError, f"again, log={log}")


@scenario("C08", "plots", 192, 1500, need=["same posterior curve", "posterior curve", "curve of an underflowing posterior"])
def c08_plots(c):
    from matplotlib import pyplot as plt
    from scipy.stats import gaussian_kde

    rng = c.rng
    p, q = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    n = int(rng.integers(15, 60))
    X = rng.random((n, p))
    y = X @ rng.normal(size=(p, q)) + 0.1 * rng.normal(size=(n, q))
    deep = chance(rng, 0.4)
    sd = (y.std(axis=0) + 0.05) * rng.uniform(0.5, 1.5)
    loc = y[0]
    if deep:  # one more output, hardly varying, far from its datum: every likelihood value underflows
        far = rng.uniform(45, 90) * rng.choice([-1, 1])
        y = np.c_[y, rng.normal(size=n) * 0.01]
        sd, loc = np.r_[sd, 1.0], np.r_[loc, far]
    wild = chance(rng, 0.4)
    if wild:  # some predictions are nowhere near the data
        k = max(1, n // int(rng.integers(3, 8)))
        y[-k:] += rng.uniform(60, 600) * sd * rng.choice([-1, 1], y.shape[1])
    ll, aff = dist.norm(loc, sd), 12
    c.note(X=X, y=y, deep=deep, wild=wild)
    curves = {}
    lp = ll.logpdf(y).sum(axis=1)
    pw = np.exp(lp - lp.max())
    if pw.sum() ** 2 / np.sum(pw**2) < p + 1.5 or wild and pw.sum() ** 2 / np.sum(pw**2) < p + q + 2.5:
        c.saw("concentrated posterior, not plotted")
        return
    kde = gaussian_kde(X.T, weights=pw)
    for log in (False, True):
        if deep and not log:
            continue
        B = BP(X, y, [[0, 1]] * p)
        B.set_likelihood(ll, log=log)
        idx, oi = c.idx % p, c.idx % q
        fig, (a1, a2) = plt.subplots(1, 2)
        B.plot_param_space(param_idx=idx, ax=a1, aff=aff, map_opts=None, pr_opts=None)
        B.plot_obs_space(obs_idx=oi, ax=a2, y_range=gen.ybox(y[lp > -600] if wild and not deep else y), aff=aff, ll_opts=None)
        curves[log] = (a1.lines[0].get_ydata(), a2.lines[0].get_ydata())
        plt.close("all")
    axes = [np.linspace(0, 1, aff)[:-1]] * p
    G = np.meshgrid(*axes, indexing="ij")
    v = kde(np.vstack([g.ravel() for g in G])).reshape(G[0].shape)
    m = v.sum(axis=tuple(j for j in range(p) if j != idx))
    m = m / (m.sum() * (axes[0][1] - axes[0][0]))
    c.close("curve of an underflowing posterior" if deep else "posterior curve", curves[True][0], m, rtol=1e-6)
    if not deep:
        c.close("same posterior curve", curves[True][0], curves[False][0], rtol=1e-6)
        c.close("same posterior curve", curves[True][1], curves[False][1], rtol=1e-6)
