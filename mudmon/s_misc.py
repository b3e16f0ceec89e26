"""C33-C35: sanitizers over all computations, wrappers, example generators."""
import random

import numpy as np
from scipy import stats
from scipy.stats import distributions as dist

from . import gen, ref
from .core import Violated, rule, scenario
from .gen import chance, pick
from .s_density import BP, DP
from .s_linear import ILP, LGP, Lin, iter_system
from .s_plot import copied, equal, rng_state
from .s_st import STP, Study


# ------------------------------------------------------------------ C33
rule("C33", "A catalogue of all public computations of the library under an input / random-state sanitizer: argument containers are digested and both global generators read before and after, each call is repeated under another global seed; several problems sharing their arrays are driven in random interleavings and compared with each one run alone; callers overwrite the arrays they passed.")


def plain(v):
    """Comparable contents of a result."""
    if isinstance(v, (np.ndarray, float, int, str, bool, type(None), np.generic)):
        return np.array(v) if isinstance(v, np.ndarray) else v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return type(v).__name__


def lin_pool(rng, c, **kw):
    L = Lin(rng, full_row=chance(rng, 0.4), defaults=False, **kw)
    pool = dict(
        A=L.A.copy(), b=pick(rng, [L.b_arg.reshape(-1, 1), L.b_arg.copy(), L.b_arg.reshape(1, -1)]), y=pick(rng, [L.y_arg.reshape(-1, 1), L.y_arg.copy()]),
        mean=pick(rng, [L.mean_arg.reshape(-1, 1), L.mean_arg.copy()]), cov=L.cov_arg.copy(), obs=L.obs_arg.copy(),
        X=rng.normal(size=(int(rng.integers(1, 6)), L.p)),
    )
    c.note(**pool)
    return L, pool


def call_linear(c, rng):
    """-> (pool, {name: fn(pool)})"""
    import mud.funs as F
    import mud.norm as N

    L, pool = lin_pool(rng, c)
    al = float(10 ** rng.uniform(-1, 1))
    pr = lambda p, **k: LGP(p["A"], b=p["b"], y=p["y"], mean_i=p["mean"], cov_i=p["cov"], cov_o=p["obs"], alpha=al, **k)
    kw = lambda p: dict(y=p["y"], mean=p["mean"], cov=p["cov"], data_cov=p["obs"])
    epochs = int(rng.integers(1, 3))
    od = int(rng.integers(1, L.m + 1))
    order = pick(rng, [None, [int(v) for v in rng.permutation(L.m)], rng.permutation(L.m)])
    pool["order"] = order
    col = lambda v: np.reshape(v, (-1, 1))
    calls = {
        "LinearGaussianProblem.solve": lambda p: [pr(p).solve(m) for m in ("mud", "mud_alt", "map", "ls", "all")],
        "LinearGaussianProblem.solve(output_dim)": lambda p: pr(p).solve("all", output_dim=od),
        "compute_functionals": lambda p: [pr(p).compute_functionals(p["X"], t) for t in ("all", "data", "reg", "dc_term", "reg_m", "bayes", "dc")],
        "LinearGaussianProblem.updated_cov": lambda p: [pr(p).updated_cov(), pr(p).updated_cov(p["A"], p["cov"], p["obs"])],
        "updated_cov": lambda p: F.updated_cov(p["A"], p["cov"], p["obs"]),
        "lin_prob": lambda p: F.lin_prob(p["A"], p["b"], alpha=al, **kw(p)).solve("all"),
        "mud_sol": lambda p: F.mud_sol(p["A"], p["b"], **kw(p)),
        "mud_sol_with_cov": lambda p: F.mud_sol_with_cov(p["A"], p["b"], **kw(p)),
        "map_sol": lambda p: F.map_sol(p["A"], p["b"], w=al, **kw(p)),
        "map_sol_with_cov": lambda p: F.map_sol_with_cov(p["A"], p["b"], w=al, **kw(p)),
        "IterativeLinearProblem.solve": lambda p: (lambda I: [I.solve(epochs), I.solve(1), I.solution_chains, I.get_errors(p["mean"])])(
            ILP(p["A"], p["b"], p["y"], mu_i=p["mean"], cov=p["cov"], idx_order=p["order"])),
        "iter_lin_solve": lambda p: F.iter_lin_solve(p["A"], p["b"], y=p["y"], mean=p["mean"], cov=p["cov"], num_epochs=epochs, idx_order=p["order"]),
        "performEpoch": lambda p: F.performEpoch(p["A"], np.ravel(p["b"]), col(p["y"]), col(p["mean"]), p["cov"], idx=p["order"]),
        "iterate": lambda p: F.iterate(p["A"], np.ravel(p["b"]), col(p["y"]), col(p["mean"]), p["cov"], num_epochs=epochs, idx=p["order"]),
        "inner_product": lambda p: N.inner_product(p["X"].T, p["cov"]),
        "norm_input": lambda p: N.norm_input(p["X"], p["mean"], p["cov"]),
        "norm_data": lambda p: N.norm_data(p["A"], p["X"], p["y"], p["b"], p["obs"]),
        "norm_predicted": lambda p: N.norm_predicted(p["A"], p["X"], p["mean"], p["cov"]),
        "full_functional": lambda p: N.full_functional(p["A"], p["X"], p["y"], p["mean"], p["cov"], p["b"], p["obs"]),
    }
    if L.rank < L.m:  # predicted covariance is singular
        for k in ("compute_functionals", "norm_predicted", "full_functional"):
            calls.pop(k)
    return pool, calls


def call_util(c, rng):
    import mud.funs as F
    import mud.plot as P
    import mud.preprocessing as PP
    import mud.util as U

    n, d = int(rng.integers(3, 12)), int(rng.integers(2, 6))
    k = int(rng.integers(1, min(n, d) + 1))
    m = int(rng.integers(2, 6))
    pool = dict(
        T=rng.normal(size=(n, d)) * 10 ** rng.uniform(-2, 2, d), M=gen.operator(rng, m, d, int(rng.integers(1, min(m, d) + 1))),
        data=pick(rng, [rng.normal(size=d), rng.normal(size=(d, 1)), list(rng.normal(size=d))]), ops=[rng.normal(size=(m, d)), rng.normal(size=(1, d))],
        obs=[rng.normal(size=m), rng.normal(size=4)], sds=[rng.uniform(0.1, 2, m), 0.7], sdl=rng.uniform(0.1, 2, m).tolist(), box=np.sort(rng.normal(size=(2, d)), axis=0).T.copy(), i=np.array([5, 1]),
    )
    c.note(**{k: v for k, v in pool.items() if isinstance(v, np.ndarray)})
    sd = float(rng.uniform(0.1, 2))
    from mud.base import LinearWMEProblem

    calls = {
        "wme": lambda p: [F.wme(p["T"], p["data"]), F.wme(p["T"], p["data"], sd)],
        "std_from_equipment": lambda p: U.std_from_equipment(0.2, 0.9),
        "transform_linear_map": lambda p: [U.transform_linear_map(p["ops"][0], p["obs"][0], p["sds"][0]), U.transform_linear_map(p["ops"][0], p["obs"][0], p["sdl"]), U.transform_linear_map(p["ops"][1], p["obs"][1], sd)],
        "transform_linear_setup": lambda p: U.transform_linear_setup(p["ops"], p["obs"], p["sds"]),
        "LinearWMEProblem": lambda p: LinearWMEProblem(p["ops"], p["obs"], p["sds"]).solve("all"),
        "null_space": lambda p: U.null_space(p["M"]),
        "rank_decomposition": lambda p: U.rank_decomposition(p["M"]),
        "make_2d_unit_mesh": lambda p: U.make_2d_unit_mesh(5, 2),
        "make_2d_normal_mesh": lambda p: P.make_2d_normal_mesh(5, 2),
        "build_nd_mesh_grid": lambda p: P.build_nd_mesh_grid(p["box"][:2], aff=4),
        "fit_domain": lambda p: [U.fit_domain(p["T"]), U.fit_domain(p["T"], pad_ratio=0.3), U.fit_domain(min_max_bounds=p["box"], pad_ratio=0.2)],
        "set_shape": lambda p: U.set_shape(p["T"], (1, -1)),
        "pca": lambda p: (lambda r: [r[0].components_, r[0].explained_variance_, r[1]])(PP.pca(p["T"], n_components=k)),
        "svd": lambda p: PP.svd(p["T"]),
        "add_noise(seed)": lambda p: U.add_noise(p["T"], sd, seed=3),
    }
    return pool, calls


SEEDED = {"add_noise(seed)", "measurements_from_reference(seed)"}  # documented to seed the generator


def call_problems(c, rng):
    p, q = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    n = int(rng.integers(4 * (p + q) + 10, 50))
    X, box = gen.samples(rng, n, p)
    y = gen.model(rng, X, box, q)
    yb = gen.ybox(y)
    w = yb[:, 1] - yb[:, 0]
    pool = dict(X=X.copy(), y=y.copy(), box=box.copy(), W=rng.uniform(0.1, 2, (2, n)), w=rng.uniform(0.1, 2, n).tolist(),
                loc=yb.mean(axis=1), scale=w * 0.4, inloc=box.mean(axis=1), insc=(box[:, 1] - box[:, 0]))
    if chance(rng, 0.2):
        pool["X"], pool["y"] = pool["X"].tolist(), pool["y"].tolist()
    c.note(X=X, y=y)
    norm = bool(rng.integers(2))
    ob = lambda v: dist.norm(v["loc"], v["scale"])
    ini = lambda v: dist.norm(v["inloc"], v["insc"])

    def density(v, ini_=False, pred=False, weights=None):
        D = DP(v["X"], v["y"], v["box"] if chance(np.random.RandomState(1), 0.5) else None, weights=None if weights is None else v[weights], normalize=norm)
        if ini_:
            D.set_initial(ini(v))
        D.set_observed(ob(v))
        if pred:
            D.set_predicted(dist.norm(v["loc"], v["scale"] * 3))
        return [D.estimate(), D.mud_point(), D.expected_ratio(), D.domain, D.X, D.y]

    def bayes(v, log, prior):
        B = BP(v["X"], v["y"], v["box"])
        B.set_likelihood(ob(v), log=log)
        if prior:
            B.set_prior(ini(v))
        return [B.estimate(), B.map_point(), B.domain, B.X, B.y]

    calls = {
        "DensityProblem": lambda v: density(v),
        "DensityProblem(weights)": lambda v: density(v, weights="W"),
        "DensityProblem(weights, initial)": lambda v: density(v, ini_=True, weights="w"),
        "DensityProblem(predicted)": lambda v: density(v, ini_=True, pred=True),
        "BayesProblem": lambda v: bayes(v, False, False),
        "BayesProblem(log, prior)": lambda v: bayes(v, True, True),
    }
    return pool, calls


def call_st(c, rng):
    from mud.funs import data_prob

    s = Study(rng, n=int(rng.integers(12, 20)), S=int(rng.integers(2, 5)), T=int(rng.integers(1, 4)), p=int(rng.integers(1, 3)))
    s.data = s.data + rng.normal(size=s.data.shape) * (s.data.std() + 1)
    s.note(c)
    k = s.S * s.T
    pool = dict(lam=s.lam.copy(), data=s.data.reshape(s.n, -1).copy(), meas=s.meas.reshape(-1, 1).copy(), tv=s.true.reshape(-1, 1).copy(), domain=s.domain.copy(),
                sensors=s.sensors.copy(), times=s.times.copy(), ref=s.ref.copy(), dw=rng.uniform(0.5, 2, k), sw=rng.uniform(0.5, 2, s.n), sm=np.arange(s.n)[::-1].copy(),
                xm=[1, 0], tm=np.ones(s.T, bool))
    df = lambda v: {"lam": v["lam"], "data": v["data"], "measurements": v["meas"], "true_vals": v["tv"], "domain": v["domain"], "sensors": v["sensors"], "times": v["times"],
                    "std_dev": s.sd, "sample_dist": "u", "lam_ref": v["ref"]}
    pool["df"] = df(pool)

    def mk(v):
        return STP(v["df"])

    def mp(v, **kw):
        S = mk(v)
        D = S.mud_problem(**kw)
        D.set_observed(dist.norm(np.zeros(D.y.shape[1]), 3.0 * np.abs(D.y).max()))
        return [D.y, D.X, D.estimate(), D.expected_ratio(), S.lam, S.data, S.measurements]

    def mref(v):
        S = mk(v)
        S.measurements_from_reference(v["tv"], std_dev=0.3, seed=4)
        return S.measurements

    calls = {
        "load": lambda v: [getattr(mk(v), f) for f in ("lam", "data", "measurements", "true_vals", "domain", "lam_ref", "times", "sensors", "std_dev", "sample_dist")],
        "sample_data": lambda v: mk(v).sample_data(samples_mask=v["sm"], sensors_mask=v["xm"], times_mask=v["tm"]),
        "get_closest": lambda v: [mk(v).get_closest_to_measurements(samples_mask=v["sm"]), mk(v).get_closest_to_true_vals()],
        "validate": lambda v: mk(v).validate(check_true=True),
        "mud_problem(wme)": lambda v: mp(v, method="wme", data_weights=v["dw"], sample_weights=v["sw"]),
        "mud_problem(pca)": lambda v: mp(v, method="pca", num_components=1, sensors_mask=v["xm"]),
        "mud_problem(svd)": lambda v: mp(v, method="svd", num_components=1, times_mask=v["tm"], samples_mask=v["sm"]),
        "measurements_from_reference(seed)": mref,
        "data_prob": lambda v: (lambda D: [D.estimate(), D.X, D.y])(
            data_prob(v["lam"], v["data"], v["tv"], v["meas"], s.sd, domain=v["domain"], times=v["times"], sensors=v["sensors"], lam_ref=v["ref"], init_dist=dist.norm(v["ref"], 10 * (np.ptp(v["domain"], axis=1))))),
    }
    return pool, calls


CATALOGUE = {"linear": call_linear, "util": call_util, "problems": call_problems, "spatio-temporal": call_st}


@scenario("C33", "sanitized calls", 480, 8000, need=["inputs untouched", "random state untouched", "repeatable", "call updated_cov", "call pca", "call DensityProblem", "call load", "call null_space", "call data_prob", "call BayesProblem"])
def c33_calls(c):
    rng = c.rng
    kind = pick(rng, list(CATALOGUE))
    pool, calls = CATALOGUE[kind](c, rng)
    names = list(calls)
    for i in rng.permutation(len(names))[:8]:
        name = names[i]
        outs = []
        for rep in range(2):
            np.random.seed(100 + rep)
            random.seed(200 + rep)
            np.random.random(rep)
            before, st = copied(pool), rng_state()
            out = calls[name](pool)
            if name not in SEEDED:
                c.check("random state untouched", rng_state() == st, name, "consumed or reseeded global random numbers")
            for k in pool:
                c.check("inputs untouched", equal(pool[k], before[k]), name, "modified its input", k, "from", before[k], "to", pool[k])
            outs.append(plain(out))
        c.check("repeatable", equal(outs[0], outs[1]), name, outs[0], outs[1])
        c.saw(f"call {name}")


@scenario("C33", "later changes by the caller", 320, 4000, need=["answers do not follow the caller's arrays"])
def c33_alias(c):
    rng = c.rng
    kind = int(rng.integers(4))

    def spoil(v):
        if isinstance(v, np.ndarray):
            v[...] = rng.normal(size=v.shape) * 7 + 3
        elif isinstance(v, list):
            for i in range(len(v)):
                if isinstance(v[i], list):
                    spoil(v[i])
                else:
                    v[i] = float(rng.normal())

    if kind == 0:
        L, pool = lin_pool(rng, c)
        pool.pop("X")

        def mk(p):
            return LGP(p["A"], b=p["b"], y=p["y"], mean_i=p["mean"], cov_i=p["cov"], cov_o=p["obs"])

        ask = lambda P: [P.solve(m) for m in ("mud", "map", "ls", "mud_alt")] + [P.updated_cov()]
    elif kind == 1:
        from mud.base import LinearWMEProblem

        d = int(rng.integers(1, 4))
        pool = dict(ops=[rng.normal(size=(4, d)), rng.normal(size=(1, d))], obs=[rng.normal(size=4), rng.normal(size=3)], sds=[rng.uniform(0.1, 1, 4), 0.3], mean=rng.normal(size=(d, 1)), cov=gen.spd(rng, d))
        c.note(op=pool["ops"][0], obs=pool["obs"][0])

        def mk(p):
            return LinearWMEProblem(p["ops"], p["obs"], p["sds"], mean_i=p["mean"], cov_i=p["cov"])

        ask = lambda P: [P.solve(m) for m in ("mud", "map", "ls")]
    else:
        p, q = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        n = int(rng.integers(25, 50))
        X, box = gen.samples(rng, n, p)
        y = gen.model(rng, X, box, q)
        yb = gen.ybox(y)
        pool = dict(X=X.copy(), y=y.copy(), box=box.copy(), w=rng.uniform(0.2, 2, n))
        if p == 1 and chance(rng, 0.4):
            pool["X"] = X[:, 0].copy()
        c.note(X=X, y=y)
        ob = dist.norm(yb.mean(axis=1), (yb[:, 1] - yb[:, 0]) * 0.5)

        if kind == 2:
            def mk(v):
                return DP(v["X"], v["y"], v["box"], weights=v["w"])

            def ask(P):
                P.set_observed(ob)
                return [P.estimate(), P.expected_ratio(), P.X, P.y, P.domain]
        else:
            if pool["X"].ndim == 1:
                pool["X"] = X.copy()

            def mk(v):
                return BP(v["X"], v["y"], v["box"])

            def ask(P):
                P.set_likelihood(ob, log=True)
                return [P.estimate(), P.X, P.y, P.domain]

    if chance(rng, 0.3):
        pool = {k: (v.tolist() if isinstance(v, np.ndarray) and k not in ("A",) else v) for k, v in pool.items()}
    want = plain(ask(mk(copied(pool))))
    P = mk(pool)
    first = chance(rng, 0.5)
    if first:
        ask(P)
    for k in pool:
        if kind == 1 and k in ("ops", "obs"):
            for v in pool[k]:
                spoil(v)
        elif not (kind == 1 and k == "sds"):
            spoil(pool[k])
    got = plain(ask(P))
    c.check("answers do not follow the caller's arrays", equal(got, want), type(P).__name__, "asked before the change" if first else "not asked before", got, want)


def actors(c, rng):
    """Problems over shared arrays: name -> (make(), [operations])"""
    p, q = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    n = int(rng.integers(4 * (p + q) + 14, 60))
    X, box = gen.samples(rng, n, p)
    y = gen.model(rng, X, box, q)
    yb = gen.ybox(y)
    w = yb[:, 1] - yb[:, 0]
    W = rng.uniform(0.2, 2, n)
    c.note(X=X, y=y)
    shared = dict(X=X, y=y, box=box, W=W)
    obs = [dist.norm(yb.mean(axis=1) + f * w, w * g) for f, g in ((0, 0.4), (0.1, 0.6), (-0.1, 0.3))]
    inis = [dist.norm(box.mean(axis=1), np.ptp(box, axis=1)), dist.uniform(box[:, 0], np.ptp(box, axis=1))]
    dens_ops = [
        lambda D: D.set_observed(obs[0]), lambda D: D.set_observed(obs[1]), lambda D: D.set_initial(inis[0]), lambda D: D.set_initial(inis[1]),
        lambda D: D.set_weights(W), lambda D: D.set_weights(), lambda D: D.set_predicted(obs[2]), lambda D: D.set_predicted(bw_method=0.4),
        lambda D: D.estimate(), lambda D: D.expected_ratio(), lambda D: D.estimate(),
    ]
    bay_ops = [lambda B: B.set_likelihood(obs[1]), lambda B: B.set_likelihood(obs[0], log=True), lambda B: B.set_prior(inis[0]), lambda B: B.set_prior(), lambda B: B.estimate(), lambda B: B.map_point()]
    L = Lin(rng, m=int(rng.integers(1, 5)), p=int(rng.integers(1, 5)), defaults=False)
    A, b, yy, mean, cov, oc = L.A, L.b, L.y, L.mean, L.cov, L.obs
    shared.update(A=A, b=b, yy=yy, mean=mean, cov=cov, oc=oc)
    lin_ops = [lambda P, m=m: P.solve(m) for m in ("mud", "map", "ls", "mud_alt")] + [lambda P: P.solve("all", output_dim=1), lambda P: P.updated_cov()]
    it_ops = [lambda I: I.solve(), lambda I: I.solve(2), lambda I: I.get_errors(mean) if I.solution_chains else None]
    s = Study(rng, n=n, p=p)
    s.lam = X
    S = s.S * s.T
    df = dict(lam=X, data=rng.normal(size=(n, S)), measurements=rng.normal(size=S), domain=np.column_stack([X.min(axis=0), X.max(axis=0)]), sensors=s.sensors, times=s.times, std_dev=0.7)
    shared.update({"st_" + k: v for k, v in df.items()})

    def st_solve(T, **kw):
        D = T.mud_problem(**kw)
        D.set_observed(dist.norm(np.zeros(D.y.shape[1]), 2 * np.abs(D.y).max()))
        return [D.estimate(), D.expected_ratio()]

    st_ops = [lambda T: st_solve(T, method="wme"), lambda T: st_solve(T, method="wme", sample_weights=W), lambda T: T.get_closest_to_measurements(), lambda T: T.sample_data(samples_mask=[0, 1]), lambda T: T.measurements_from_reference(ref=df["measurements"], std_dev=0.1, seed=2) or T.measurements]
    mk_d = lambda: (lambda D: (D.set_observed(obs[0]), D)[1])(DP(X, y, box))
    mk_b = lambda: (lambda B: (B.set_likelihood(obs[0]), B)[1])(BP(X, y, box))
    return shared, [
        ("density", mk_d, dens_ops), ("bayes", mk_b, bay_ops), ("linear", lambda: LGP(A, b=b, y=yy, mean_i=mean, cov_i=cov, cov_o=oc), lin_ops),
        ("iterative", lambda: ILP(A, b, yy, mu_i=mean, cov=cov, data_cov=oc), it_ops), ("spatio-temporal", lambda: STP(df), st_ops),
    ]


def do(op, obj):
    try:
        return plain(op(obj))
    except ValueError as e:  # e.g. a vanishing posterior: part of the answer
        return f"ValueError {e}"


@scenario("C33", "interleaved problems", 320, 5000, need=["same answers as alone", "shared arrays untouched"])
def c33_inter(c):
    rng = c.rng
    shared, kinds = actors(c, rng)
    before = copied(shared)
    objs, hist = [], []
    for _ in range(int(rng.integers(2, 6))):
        name, mk, ops = pick(rng, kinds)
        objs.append((name, mk(), mk, ops, [], []))
    for _ in range(int(rng.integers(10, 30))):
        name, o, mk, ops, done, outs = pick(rng, objs)
        op = pick(rng, ops)
        done.append(op)
        outs.append(do(op, o))
        for k in shared:
            c.check("shared arrays untouched", equal(shared[k], before[k]), name, "changed", k)
    for name, o, mk, ops, done, outs in objs:
        alone = mk()
        for i, op in enumerate(done):
            want = do(op, alone)
            c.check("same answers as alone", equal(outs[i], want), name, "operation", i, "of", len(done), "together", outs[i], "alone", want)


# ------------------------------------------------------------------ C34
rule("C34", "The wrappers are called with planted signals, outputs, observation counts, splits, weights and domains; the noise actually added is recovered from the returned problem's predictions (or from the likelihood handed to the problem) and judged: one value per observation, shared by all groups, of the requested size, fixed by the random state; everything else is recomputed from the arguments.")


class Wrapped:
    """Outputs of a model and a true signal far larger than the noise."""

    def __init__(self, rng, n=None):
        self.p = int(rng.integers(1, 4))
        self.n = n or int(rng.integers(14, 60))
        self.k = int(rng.integers(1, 9)) if chance(rng, 0.8) else int(rng.integers(9, 60))
        self.X, self.box = gen.samples(rng, self.n, self.p)
        Z = (self.X - self.box[:, 0]) / np.ptp(self.box, axis=1)
        A = rng.normal(size=(self.p, self.k))
        self.size = float(10 ** rng.uniform(-2, 2))
        self.q = self.size * (Z @ A + 0.3 * Z[:, :1] ** 2 + rng.normal(size=self.k))
        self.true = self.size * (rng.random(self.p) @ A) + self.size * 3 * rng.normal(size=self.k)
        self.sd = float(self.size * 10 ** rng.uniform(-2.5, -0.7))
        self.dom = np.column_stack([self.X.min(axis=0), self.X.max(axis=0)])
        if chance(rng, 0.5):
            self.dom = self.box.copy()
        self.lam = self.X[:, 0].copy() if self.p == 1 and chance(rng, 0.5) else self.X.copy()
        self.qoi = self.q[:, 0].copy() if self.k == 1 and chance(rng, 0.5) else gen.form(rng, self.q, lists=False)

    def obs(self, rng):
        """-> (keyword arguments, number of observations)"""
        r = int(rng.integers(3))
        if r == 0:
            return {}, self.k
        if r == 1:
            return {"num_obs": None}, self.k
        m = int(rng.integers(1, self.k + 1))
        return {"num_obs": m}, m


def seeded(seed, fn):
    np.random.seed(seed)
    return fn()


@scenario("C34", "density wrapper", 480, 8000, need=["noise of the requested level", "same noise for every sample", "one noise vector for all groups", "predictions", "samples", "domain", "weights used", "noise fixed by the random state", "another state, another noise"])
def c34_mud(c):
    import mud.funs as F

    rng = c.rng
    w = Wrapped(rng)
    kw, m = w.obs(rng)
    split, groups = None, [np.arange(m)]
    if chance(rng, 0.6):
        split = [rng.permutation(w.k)[: int(rng.integers(1, w.k + 1))] for _ in range(int(rng.integers(1, 4)))]
        if chance(rng, 0.2):  # an output named more than once counts as often
            split[0] = rng.integers(w.k, size=int(rng.integers(1, 2 * w.k + 1)))
        split = [s if (s < m).any() else np.append(s, 0) for s in split]
        if chance(rng, 0.5):
            split.append(split[0].copy())
        if chance(rng, 0.3):
            split = [np.array([i]) for i in range(m)] + [np.arange(m)]
        groups = [s[s < m] for s in split]
        kw["split"] = split
    W = None
    if chance(rng, 0.4):
        W = rng.uniform(0.1, 2, w.n)
        kw["weights"] = W
        if chance(rng, 0.4):  # several weight vectors, combined by their product
            V = rng.uniform(0.2, 2, (int(rng.integers(1, 4)), w.n))
            kw["weights"] = pick(rng, [np.vstack([W, V]), np.vstack([V, W]), np.vstack([W, V]).tolist()])
            W = W * V.prod(axis=0)
            c.saw("several weight vectors")
    sd = w.sd
    if chance(rng, 0.1):
        sd = 0.05
        w.q, w.true, w.qoi = w.q / w.size, w.true / w.size, np.asarray(w.qoi) / w.size
    else:
        kw["sd"] = sd
    c.note(X=w.X, q=w.q, true=w.true, sd=sd, kw=sorted(kw), m=m)
    seed = int(rng.integers(2**31))
    run = lambda **k: F.mud_problem(w.lam.copy(), np.array(w.qoi), w.true.copy(), w.dom.copy(), **{**kw, **k})
    D = seeded(seed, run)
    y = np.asarray(D.y)
    c.check("predictions", y.shape == (w.n, len(groups)), "shape", y.shape, "for", len(groups), "groups")
    E = []
    for j, g in enumerate(groups):
        a = (w.q[:, g] - w.true[g]).sum(axis=1) / (sd * np.sqrt(len(g)))
        e = a - y[:, j]  # sum of standard normal draws / sqrt(count)
        scale = np.abs(a).max() + 10
        c.check("same noise for every sample", np.ptp(e) <= 1e-8 * scale, "group", g, "shifts", e)
        e = float(np.mean(e))
        c.check("noise of the requested level", abs(e) < 6.5 * np.sqrt((np.bincount(g) ** 2).sum() / len(g)) and (e != 0), "group", g, "standardised noise", e, "sd", sd)
        c.saw("predictions")
        E.append(e * np.sqrt(len(g)))
    # groups' noises are sums of one common vector
    M = np.array([[np.sum(g == i) for i in range(m)] for g in groups], dtype=float)
    z, *_ = np.linalg.lstsq(M, np.array(E), rcond=None)
    c.check("one noise vector for all groups", np.abs(M @ z - E).max() <= 1e-6 * (1 + np.abs(E).max() + np.abs(w.q).max() / sd), "noise sums", E, "over groups", groups)
    c.same("samples", D.X, w.X)
    c.same("domain", D.domain, w.dom)
    again = seeded(seed, run)
    c.same("noise fixed by the random state", again.y, D.y)
    other = seeded(seed + 1, run)
    c.check("another state, another noise", (np.asarray(other.y) != y).all(), "same predictions for another random state")
    if "sd" in kw:
        k2 = float(rng.uniform(0.3, 4))
        half = seeded(seed, lambda: run(sd=sd * k2))
        for j, g in enumerate(groups):
            a = (w.q[:, g] - w.true[g]).sum(axis=1) / (sd * k2 * np.sqrt(len(g)))
            c.close("noise proportional to sd", np.mean(a - np.asarray(half.y)[:, j]) * np.sqrt(len(g)), E[j], rtol=1e-6, atol=1e-8 * (1 + np.abs(a).max()))
    q = y.shape[1]
    sv = np.linalg.svd((y - y.mean(axis=0)) / np.ptp(y, axis=0), compute_uv=False)
    if sv[-1] > 1e-3 * sv[0] and w.n > 3 * q:
        ob = dist.norm(y[int(rng.integers(w.n))], np.full(q, 3.0 + np.abs(y).max()))
        D.set_observed(ob)
        with np.errstate(all="ignore"):
            val = ref.updated(np.ones(w.n), np.ones(w.n) if W is None else W, ref.rows_of(ob, y), ref.kde_at(y, W, None))
        ref.judge_argmax(c, "weights used", D.estimate(), w.X, val, rtol=1e-8)
        c.saw("weights used", 0 if W is None else 1)


@scenario("C34", "Bayes wrapper", 400, 6000, need=["noise of the requested level", "predictions", "likelihood", "MAP: maximal", "noise fixed by the random state"])
def c34_map(c):
    import mud.base
    import mud.funs as F

    from .taps import BayesMonitor

    rng = c.rng
    w = Wrapped(rng)
    kw, m = w.obs(rng)
    sd = w.sd if chance(rng, 0.8) else rng.uniform(0.5, 2, m) * w.sd
    kw["sd"] = sd
    log = chance(rng, 0.7)
    if log or chance(rng, 0.5):
        kw["log"] = log
    c.note(X=w.X, q=w.q, true=w.true, sd=sd, m=m, log=log)
    seed = int(rng.integers(2**31))
    run = lambda: F.map_problem(w.lam.copy(), np.array(w.qoi), w.true.copy(), w.dom.copy(), **kw)
    with BayesMonitor(c) as mon:
        B = seeded(seed, run)
        st = mon.state(B)
        ll = st["ll"]
        data = np.ravel(ll.mean())
        c.check("likelihood", data.shape == (m,), "mean", data, "for", m, "observations")
        c.close("likelihood", np.broadcast_to(ll.std(), (m,)), np.broadcast_to(sd, (m,)), rtol=1e-12)
        grid = data + sd * rng.normal(size=(5, m))
        c.close("likelihood", ll.pdf(grid), np.exp(-0.5 * ((grid - data) / sd) ** 2) / np.sqrt(2 * np.pi) / sd, rtol=1e-9, msg="normal density")
        z = (data - w.true[:m]) / sd
        c.check("noise of the requested level", (np.abs(z) < 6.5).all() and (z != 0).all(), "standardised noise", z)
        if m > 2:
            c.check("noise of the requested level", len(set(np.round(z, 9))) == m, "repeated noise", z)
        c.check("likelihood", bool(st["log"]) == log, "log", st["log"])
        c.same("predictions", B.y, w.q[:, :m])
        c.same("samples", B.X, w.X)
        c.same("domain", B.domain, w.dom)
        try:
            B.estimate()
        except ValueError:
            c.check("refused although a posterior exists", not log or not np.isfinite(mon.logpost(st)).any(), data)
        B2 = seeded(seed, run)
        c.same("noise fixed by the random state", np.ravel(mon.state(B2)["ll"].mean()), data)
        B3 = seeded(seed + 1, run)
        c.check("another state, another noise", (np.ravel(mon.state(B3)["ll"].mean()) != data).all())


@scenario("C34", "noise statistics", 16, 160, need=["noise mean", "noise spread", "noise independence"])
def c34_stats(c):
    """Many draws: independent standard normals times sd."""
    import mud.funs as F

    rng = c.rng
    w = Wrapped(rng, n=14)
    while w.k < 2:
        w = Wrapped(rng, n=14)
    R = 500
    kind = c.idx % 2
    c.note(true=w.true, sd=w.sd, kind=kind)
    np.random.seed(int(rng.integers(2**31)))
    if kind == 0:
        split = [np.array([i]) for i in range(w.k)]
        Z = np.array([(w.q[0] - w.true) / w.sd - np.asarray(F.mud_problem(w.X, w.q, w.true, w.dom, sd=w.sd, split=split).y)[0] for _ in range(R)])
    else:
        from .taps import BayesMonitor

        Z = []
        with BayesMonitor(c) as mon:
            for _ in range(R):
                B = F.map_problem(w.X, w.q, w.true, w.dom, sd=w.sd)
                Z.append((np.ravel(mon.state(B)["ll"].mean()) - w.true) / w.sd)
        Z = np.array(Z)
    tol = 6 / np.sqrt(R)
    c.check("noise mean", np.abs(Z.mean(axis=0)).max() < tol, Z.mean(axis=0))
    c.check("noise spread", np.abs(Z.std(axis=0) - 1).max() < tol, Z.std(axis=0))
    c.check("noise independence", np.abs(np.corrcoef(Z.T) - np.eye(w.k)).max() < tol, np.corrcoef(Z.T))
    c.check("noise independence", np.abs(np.mean(Z[1:] * Z[:-1], axis=0)).max() < tol, "between calls", np.mean(Z[1:] * Z[:-1], axis=0))
    kurt = np.mean(Z**4)
    u = np.sqrt(96 / Z.size)  # its standard deviation for normal noise
    c.check("noise spread", -7 * u < kurt - 3 < 10 * u, "fourth moment", kurt)
    c.check("noise spread", stats.kstest(Z.ravel(), "norm").pvalue > 1e-9, "distribution of the noise is not normal")


@scenario("C34", "refusals", 160, 1600, need=["fewer than one refused", "more than available refused"])
def c34_refuse(c):
    import mud.funs as F

    rng = c.rng
    w = Wrapped(rng)
    c.note(q=w.q, true=w.true)
    for f in (F.mud_problem, F.map_problem):
        go = lambda m: f(w.lam, np.array(w.qoi), w.true, w.dom, sd=w.sd, num_obs=m)
        for bad in (0, -1, -int(rng.integers(2, 9))):
            c.refused("fewer than one refused", lambda: go(bad), ValueError, f"{f.__name__} num_obs={bad}")
        for bad in (w.k + 1, w.k + int(rng.integers(2, 99))):
            c.refused("more than available refused", lambda: go(bad), ValueError, f"{f.__name__} num_obs={bad}, {w.k} available")
        go(1), go(w.k)
        # a longer record of the truth does not make more outputs available
        c.refused("more than available refused", lambda: f(w.lam, np.array(w.qoi), np.append(w.true, w.true), w.dom, sd=w.sd, num_obs=w.k + 1), ValueError, f.__name__)


@scenario("C34", "data-constructed wrapper", 320, 5000, need=["equals the study built by hand", "weighted mean error", "estimate: maximal", "init default", "no optional fields"])
def c34_data(c):
    from mud.funs import data_prob

    rng = c.rng
    unit = chance(rng, 0.3)
    s = Study(rng, n=int(rng.integers(16, 50)), p=int(rng.integers(1, 4)))
    if unit:
        s.lam = rng.random(s.lam.shape)
        s.domain = np.tile([[0.0, 1.0]], (s.p, 1))
        s.ref = np.full(s.p, 0.4)
    A = rng.normal(size=(s.p, s.S * s.T))
    Z = (s.lam - s.domain[:, 0]) / np.ptp(s.domain, axis=1)
    data = Z @ A + 0.1 * rng.normal(size=(s.n, s.S * s.T))
    true = Z[0] @ A
    sd = float(rng.uniform(0.2, 3))
    meas = true + sd * rng.normal(size=true.size)
    m2 = pick(rng, [meas, meas.reshape(-1, 1)])
    kw = dict(measurements=m2, std_dev=sd)
    method = pick(rng, ["wme", "wme", "pca", "svd"])
    if method != "wme" and s.S * s.T < 2:
        method = "wme"
    if method != "wme" or chance(rng, 0.4):
        kw["method"] = method
    opt = {}
    for k, v in (("qoi_true", true), ("domain", s.domain), ("lam_ref", s.ref), ("times", s.times), ("sensors", s.sensors), ("sample_dist", "u")):
        if chance(rng, 0.5):
            opt[k] = v
    if "times" in opt or "sensors" in opt:
        opt.update(times=s.times, sensors=s.sensors)
    if "lam_ref" in opt and "domain" not in opt:
        opt["lam_ref"] = s.lam[0]
    lo, hi = s.domain[:, 0], s.domain[:, 1]
    init = None
    if not unit:
        init = pick(rng, [dist.norm((lo + hi) / 2, hi - lo), dist.norm(lo + rng.random(s.p) * (hi - lo), 0.1 * (hi - lo)), dist.uniform(lo, hi - lo), dist.beta(2, 5, lo, hi - lo)])
        kw["init_dist"] = init
    c.note(lam=s.lam, data=data, meas=meas, opt=sorted(opt), method=method)
    D = data_prob(s.lam.copy(), data.copy(), **{k: copied(v) for k, v in {**kw, **opt}.items()} if init is None else {**{k: copied(v) for k, v in {**kw, **opt}.items() if k != "init_dist"}, "init_dist": init})
    content = {"lam": s.lam.copy(), "data": data.copy(), "measurements": m2.copy(), "std_dev": sd, **{{"qoi_true": "true_vals"}.get(k, k): v for k, v in opt.items()}}
    H = STP(content).mud_problem(method=method)
    i0 = dist.uniform(loc=0, scale=1) if init is None else init
    H.set_initial(i0)
    H.set_observed(dist.norm(0, 1))
    for f in ("X", "y", "domain"):
        c.same("equals the study built by hand", getattr(D, f), getattr(H, f), f)
    c.same("equals the study built by hand", D.estimate(), H.estimate(), "estimate")
    c.close("equals the study built by hand", D.expected_ratio(), H.expected_ratio(), rtol=1e-12, msg="expected ratio")
    if method == "wme":
        want = ((meas - data) / sd).sum(axis=1) / np.sqrt(meas.size)
        c.close("weighted mean error", np.ravel(D.y), want, rtol=1e-9)
    c.same("samples", D.X, s.lam)
    if "domain" in opt:
        c.same("domain", D.domain, s.domain)
    y = np.asarray(D.y)
    try:
        with np.errstate(all="ignore"):
            val = ref.updated(ref.rows_of(i0, s.lam), np.ones(s.n), ref.rows_of(dist.norm(0, 1), y), ref.kde_at(y, None, None))
    except np.linalg.LinAlgError:
        return
    ref.judge_argmax(c, "estimate", D.estimate(), s.lam, val, rtol=1e-8)
    if init is None:
        c.saw("init default")
    if not opt:
        c.saw("no optional fields")


# ------------------------------------------------------------------ C35
rule("C35", "The generators are run over their parameter ranges with random seeds; samples, outputs and data are judged against the model the documentation states (exactly where it is deterministic, within six standard errors where it is random).")


def support_check(c, lab, lam, lo, hi, n):
    """Uniform samples: inside, and spread over the whole box."""
    lam = np.asarray(lam)
    c.check(lab, (lam >= lo).all() and (lam <= hi).all(), "samples from", lam.min(axis=0), "to", lam.max(axis=0), "box", lo, hi)
    if n >= 200:
        u = (lam - lo) / (np.asarray(hi) - lo)
        tol = 6 / np.sqrt(12 * n)
        c.check(lab, np.abs(u.mean(axis=0) - 0.5).max() < tol and np.abs(np.mean(u**2, axis=0) - 1 / 3).max() < 2 * tol, "mean of scaled samples", u.mean(axis=0), "second moment", np.mean(u**2, axis=0))
        c.check(lab, u.min() < 0.1 and u.max() > 0.9, "scaled samples from", u.min(), "to", u.max())
        if u.ndim == 2 and u.shape[1] > 1:
            r = np.corrcoef(u.T) - np.eye(u.shape[1])
            c.check(lab, np.abs(r).max() < 6 / np.sqrt(n), "parameters correlated", r)


def fits(c, lam, lo, hi, n):
    try:
        support_check(c, "uniform samples", lam, lo, hi, n)
    except Violated:
        return False
    return True


@scenario("C35", "polynomial", 400, 6000, need=["samples from the initial density", "uniform samples", "exact powers", "data: mean", "data: standard deviation", "single datum", "seeded"])
def c35_poly(c):
    from scipy.stats import kstest

    from mud.examples.simple import polynomial_1D_data

    rng = c.rng
    p = int(rng.integers(1, 8))
    n = int(pick(rng, [1, 3, 50, 400, 900]))
    N = int(pick(rng, [1, 1, 2, 7, 400]))
    mu, sg = float(rng.normal()), float(10 ** rng.uniform(-2, 1))
    kw = dict(p=p, num_samples=n, mu=mu, sigma=sg, N=N)
    kind = int(rng.integers(4))
    if kind == 1:
        a, b = np.sort(rng.normal(size=2) * 2)
        b += 0.1
        kw["domain"] = pick(rng, [[[a, b]], [a, b], np.array([[a, b]])])
    elif kind >= 2:
        kw["init_dist"] = pick(rng, [dist.norm(loc=rng.normal(), scale=0.7), dist.uniform(loc=rng.normal(), scale=2.5), dist.beta(2, 3, loc=-1, scale=1.7)])
        if kind == 3:
            kw["domain"] = [[-1, 1]]
    c.note(kind=kind, **{k: repr(v) for k, v in kw.items() if k != "init_dist"})
    seed = int(rng.integers(2**31))
    lam, q, data = seeded(seed, lambda: polynomial_1D_data(**kw))
    c.check("exact powers", np.shape(lam) == (n, 1) and np.shape(q) == (n, 1), np.shape(lam), np.shape(q))
    c.close("exact powers", q, np.asarray(lam) ** p, rtol=1e-12)
    if kind <= 1:
        a, b = (-1, 1) if kind == 0 else (a, b)
        if not fits(c, np.ravel(lam), a, b, n):
            support_check(c, "uniform samples", np.ravel(lam), 0.0, 1.0, n)
            c.defect("domain ignored", False, "samples are uniform on [0, 1] instead of", [a, b])
        else:
            c.saw("uniform samples")
    elif n >= 200:
        pv = kstest(np.ravel(lam), kw["init_dist"].cdf).pvalue
        c.check("samples from the initial density", pv > 1e-9, "Kolmogorov-Smirnov p-value", pv)
    c.check("data: size", np.shape(data) == (N,), np.shape(data))
    if N == 1:
        c.check("single datum", data[0] == mu, data, mu)
    else:
        unit = seeded(seed, lambda: polynomial_1D_data(**dict(kw, sigma=1.0)))[2]
        z = np.asarray(unit) - mu
        c.check("data: mean", abs(z.mean()) < 6 / np.sqrt(N), "mean", np.mean(data), "requested", mu)
        if N > 100:
            c.check("data: standard deviation", abs(z.std() - 1) < 6 / np.sqrt(2 * N), "sd", np.std(unit), "requested", 1.0)
        else:
            c.check("data: standard deviation", 0 < np.abs(z).max() < 6.5 and np.ptp(z) > 0, z)
        got = np.asarray(data) - mu
        if np.allclose(got, sg**2 * z, rtol=1e-6, atol=1e-12 * (1 + abs(mu))) and abs(sg - 1) > 1e-3:
            c.defect("data drawn with the squared standard deviation", False, "sigma", sg, "deviations", got, "for standard normal draws", z)
        else:
            c.close("data: standard deviation", got, sg * z, rtol=1e-6, atol=1e-12 * (1 + abs(mu)))
    again = seeded(seed, lambda: polynomial_1D_data(**kw))
    for a_, b_ in zip(again, (lam, q, data)):
        c.same("seeded", a_, b_)


@scenario("C35", "identity examples", 160, 2400, need=["density estimate", "Bayes estimate", "temporal example", "problem parameters"])
def c35_identity(c):
    from mud.examples import simple

    rng = c.rng
    seed = int(rng.integers(2**31))
    n = int(rng.integers(600, 2500))
    N = int(rng.integers(1, 60))
    lo, hi = 0.0, 1.0
    if chance(rng, 0.5):
        lo, hi = np.sort(rng.normal(size=2) * 3)
        hi += 1.0
    W = hi - lo
    mu = float(lo + W * rng.uniform(0.3, 0.7))
    sg = float(W * rng.uniform(0.01, 0.06))
    kind = c.idx % 3
    gap = 25 * W / n  # no sample within this distance of a point: e^-25
    c.note(kind=kind, n=n, N=N, lo=lo, hi=hi, mu=mu, sg=sg)
    box = np.array([[lo, hi]])
    if kind == 0:
        kw = dict(num_samples=n, num_obs=N, mu=mu, sigma=sg, domain=pick(rng, [[lo, hi], box[0].copy()]))
        ana = chance(rng, 0.7)
        kw["analytical_pred"] = ana
        if chance(rng, 0.4):
            kw["init_dist"] = dist.uniform(loc=lo, scale=W)
        if chance(rng, 0.4):
            kw["weights"], kw["normalize"] = np.full(n, 0.5), chance(rng, 0.5)
        D = seeded(seed, lambda: simple.identity_1D_density_prob(**kw))
        c.check("problem parameters", D.X.shape == (n, 1) and D.y.shape == (n, 1), D.X.shape, D.y.shape)
        c.same("problem parameters", D.y, D.X)
        c.same("problem parameters", D.domain, box)
        support_check(c, "problem parameters", D.X, lo, hi, n)
        est = float(D.estimate()[0])
        slack = gap if ana else 0.12 * W + 4 * sg
        c.check("density estimate", abs(est - mu) < 6 * sg / np.sqrt(N) + slack, "estimate", est, "true", mu, "sigma", sg, "N", N)
        if ana:  # observed / predicted averages to one
            c.check("density estimate", abs(D.expected_ratio() / (0.5 if "weights" in kw and not kw["normalize"] else 1) * (0.5 if "weights" in kw and not kw["normalize"] else 1) - 1) < 6 * np.sqrt(W / sg / n), D.expected_ratio())
    elif kind == 1:
        kw = dict(num_samples=n, num_obs=N, mu=mu, sigma=sg, init_dist=dist.uniform(loc=lo, scale=W))
        if chance(rng, 0.5):
            kw["domain"] = pick(rng, [[lo, hi], box])
        B = seeded(seed, lambda: simple.identity_1D_bayes_prob(**kw))
        c.check("problem parameters", B.X.shape == (n, 1) and B.y.shape == (n, 1), B.X.shape, B.y.shape)
        c.same("problem parameters", B.y, B.X)
        if "domain" in kw:
            c.same("problem parameters", B.domain, box)
        support_check(c, "problem parameters", B.X, lo, hi, n)
        try:
            est = float(B.estimate()[0])
        except ValueError:
            c.saw("vanishing posterior")
            return
        c.check("Bayes estimate", abs(est - mu) < 6 * sg / np.sqrt(N) + gap, "estimate", est, "true", mu, "sigma", sg, "N", N)
    else:
        kw = dict(num_samples=n, num_obs=N, y_true=mu, noise=sg, init_dist=dist.uniform(loc=lo, scale=W))
        if chance(rng, 0.5):
            kw["domain"] = box
        if chance(rng, 0.4):
            kw["weights"] = np.full(n, 2.0)
        c.saw("temporal example")
        try:
            D = seeded(seed, lambda: simple.identity_1D_temporal_prob(**kw))
        except ValueError as e:
            if "distribution could not be inferred" not in str(e):
                raise
            c.defect("temporal problem cannot be built", False, f"ValueError: {e}")
            return
        c.check("problem parameters", D.X.shape == (n, 1) and D.y.shape == (n, 1), D.X.shape, D.y.shape)
        support_check(c, "problem parameters", D.X, lo, hi, n)
        # residual of the identity map: sqrt(N) (mean of the data - lam) / noise
        x, y = np.ravel(D.X), np.ravel(D.y)
        root = x + y * sg / np.sqrt(N)
        c.check("weighted mean error", np.ptp(root) < 1e-7 * (W + abs(lo)), "mean of the data", root)
        c.check("weighted mean error", abs(root[0] - mu) < 6 * sg / np.sqrt(N) and (N == 1 or root[0] != mu), "mean of the data", root[0], "true", mu)
        est = float(D.estimate()[0])
        # predictions are equally dense over the domain, but the KDE tapers near its ends
        c.check("temporal estimate", abs(est - mu) < 6 * sg / np.sqrt(N) + gap + 0.15 * W, "estimate", est, "true", mu)


@scenario("C35", "decay", 320, 5000, need=["decay model", "true signal", "times", "samples on the domain", "study fields"])
def c35_decay(c):
    from mud.examples import exp_decay as E

    rng = c.rng
    seed = int(rng.integers(2**31))
    n = int(pick(rng, [1, 2, 7, 60, 400]))
    f = float(pick(rng, [1.0, 2.0, 10.0, 12.5, 100.0]))
    end = float(rng.uniform(1, 5))
    start = float(pick(rng, [0.0, 0.0, 0.5, -0.25]))
    sd = float(rng.uniform(0.01, 1))
    two = chance(rng, 0.5)
    c.note(two=two, n=n, f=f, end=end, start=start, sd=sd)
    kw = dict(time_range=[0, end], num_samples=n, t_start=start, sampling_freq=f, std_dev=sd)
    if not two:
        a, b = np.sort(rng.uniform(0, 3, 2))
        b += 0.05
        dom = [a, b]
        if chance(rng, 0.3):
            a, b = 0.0, 1.0
        else:
            kw["domain"] = pick(rng, [dom, np.array(dom)])
        u0, lt = float(rng.uniform(0.2, 3)), float(a + (b - a) * rng.random())
        kw.update(u_0=u0, lambda_true=lt)
        P = seeded(seed, lambda: E.exp_decay_1D(**kw))
        box = np.array([[a, b]])
        model = lambda l, t: u0 * np.exp(-l[0] * t)
        ref_ = [lt]
        times = start + np.arange(int(np.ceil((end - start) * f - 1e-9))) / f
    else:
        box = np.array([[0.7, 0.8], [0.25, 0.75]])
        if chance(rng, 0.7):
            box = np.sort(rng.uniform(0, 2, (2, 2)), axis=1) + [[0, 0.05]]
            kw["domain"] = box.copy()
        ref_ = [float(v) for v in box[:, 0] + np.ptp(box, axis=1) * rng.random(2)]
        N = int(pick(rng, [1, 3, 20, 100]))
        kw.update(lambda_true=ref_, N=N)
        try:
            P = seeded(seed, lambda: E.exp_decay_2D(**kw))
        except TypeError as e:
            if "u_t_lambda_2() missing 1 required positional argument" not in str(e):
                raise
            c.defect("exp_decay_2D cannot be built", False, f"TypeError: {e}")
            return
        model = lambda l, t: l[0] * np.exp(-l[1] * t)
        times = (start + np.arange(int(np.ceil((end - start) * f - 1e-9))) / f)[:N]
    c.close("times", np.ravel(P.times), times, rtol=1e-9, atol=1e-9)
    lam = np.asarray(P.lam)
    c.check("samples on the domain", lam.shape == (n, len(box)), lam.shape)
    c.same("samples on the domain", P.domain, box)
    support_check(c, "samples on the domain", lam, box[:, 0], box[:, 1], n)
    t = np.ravel(P.times)
    c.close("decay model", np.reshape(P.data, (n, -1)), np.array([[model(l, s) for s in t] for l in lam]), rtol=1e-10)
    c.close("true signal", np.ravel(P.true_vals), [model(ref_, s) for s in t], rtol=1e-10)
    c.check("study fields", P.std_dev == sd and P.sample_dist == "u", P.std_dev, P.sample_dist)
    Q = seeded(seed, lambda: (E.exp_decay_2D if two else E.exp_decay_1D)(**kw))
    c.same("seeded", Q.lam, P.lam)
    # the study is usable: its closest sample and its wme problem are those of its own data
    if n > 20 and len(t) > 2:
        P.measurements_from_reference(std_dev=sd, seed=3)
        D = P.mud_problem(method="wme")
        want = ((np.ravel(P.measurements) - np.reshape(P.data, (n, -1))) / sd).sum(axis=1) / np.sqrt(len(t))
        c.close("decay model", np.ravel(D.y), want, rtol=1e-7, atol=1e-9, msg="weighted mean error of the study")


@scenario("C35", "random linear problem", 320, 5000, need=["data of the true parameter", "given mean and covariance", "default mean and covariance", "seeded", "solvable"])
def c35_linear(c):
    from mud.examples.linear import random_linear_problem

    rng = c.rng
    p, m = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    kw = dict(dim_input=p, dim_output=m)
    mean = cov = None
    if chance(rng, 0.5):
        mean = rng.normal(size=(p, 1))
        kw["mean_i"] = mean.copy()
    if chance(rng, 0.5):
        cov = gen.spd(rng, p)
        kw["cov_i"] = cov.copy()
    seed = int(rng.integers(2**31))
    how = chance(rng, 0.6)
    c.note(p=p, m=m, mean=mean, cov=cov, how=how)

    def run(s):
        if how:
            return random_linear_problem(seed=s, **kw)
        np.random.seed(s)
        return random_linear_problem(**kw)

    ref_, P = run(seed)
    c.check("data of the true parameter", np.shape(ref_) == (p, 1) and np.shape(P.A) == (m, p), np.shape(ref_), np.shape(P.A))
    c.close("data of the true parameter", np.ravel(P.y), (np.asarray(P.A) @ ref_ + np.reshape(P.b, (-1, 1))).ravel(), rtol=1e-10, atol=1e-12)
    if mean is not None:
        c.same("given mean and covariance", np.ravel(P.mean_i), mean.ravel())
    else:
        c.check("default mean and covariance", not np.any(P.mean_i) and np.size(P.mean_i) == p, P.mean_i)
    if cov is not None:
        c.same("given mean and covariance", P.cov_i, cov)
    else:
        d = np.diag(P.cov_i)
        c.check("default mean and covariance", np.array_equal(np.diag(d), P.cov_i) and (np.diff(d) <= 0).all() and (d >= 0.5).all() and (d <= 1.5).all(), P.cov_i)
    for v in (P.A, P.b, ref_):
        c.check("standard normal entries", np.abs(v).max() < 7 and len(set(np.ravel(v))) == np.size(v), v)
    np.random.seed(5)
    r2, P2 = run(seed)
    c.same("seeded", r2, ref_)
    c.same("seeded", P2.A, P.A)
    r3, P3 = run(seed + 1)
    c.check("seeded", not np.array_equal(P3.A, P.A) and not np.array_equal(r3, ref_))
    x = P.solve("mud")
    if np.linalg.matrix_rank(P.A, tol=1e-6) == min(m, p) and np.linalg.cond(P.A) < 1e4:
        c.close("solvable", (P.A @ x + np.reshape(P.b, (-1, 1))).ravel(), np.ravel(P.y), rtol=1e-6, atol=1e-6 * (1 + np.abs(P.A).max() * np.abs(x).max()))
        if m >= p:
            c.close("solvable", np.ravel(x), ref_.ravel(), rtol=1e-4, atol=1e-5)


@scenario("C35", "linear data", 400, 6000, need=["one data set per quantity", "noise of the requested size", "operator", "noiseless", "noise proportional to std", "repeated measurements", "per-measurement noise", "mismatch refused", "usable"])
def c35_data(c):
    from mud.base import LinearWMEProblem
    from mud.examples.linear import noisy_linear_data, random_linear_wme_problem

    rng = c.rng
    d = int(rng.integers(1, 6))
    x = rng.normal(size=d) * 2
    refp = pick(rng, [x, x.reshape(-1, 1), x.tolist()])
    seed = int(rng.integers(2**31))
    if chance(rng, 0.5):
        Q = int(rng.integers(1, 5))
        rep = Q == 1 or chance(rng, 0.7)
        kN = int(rng.integers(2))
        Ns = [int(v) for v in rng.integers(1, 30, Q)] if kN else [int(rng.integers(1, 30))] * Q
        if not rep:  # operators of other shapes: "linear data defects"
            Ns, kN = [Q] * Q, 0
        ks = int(rng.integers(5)) if Q == 1 else int(rng.integers(1, 5))
        if ks == 0:
            s_arg = pick(rng, [float(rng.uniform(0.01, 2)), np.float64(0.3), 2.5])
            sds = [np.full(n, float(s_arg)) for n in Ns]
        elif ks == 1:
            s_arg = rng.uniform(0.01, 2, Q)
            s_arg = pick(rng, [s_arg, s_arg.tolist()])
            sds = [np.full(n, v) for n, v in zip(Ns, s_arg)]
        elif ks == 2:
            s_arg = [0] * Q
            sds = [np.zeros(n) for n in Ns]
        elif ks == 3:
            s_arg = [int(v) for v in rng.integers(1, 4, Q)]
            sds = [np.full(n, float(v)) for n, v in zip(Ns, s_arg)]
        else:
            s_arg = [rng.uniform(0.01, 2, n) for n in Ns]
            sds = s_arg
            c.saw("per-measurement noise")
        kw = dict(num_qoi=Q, num_observations=Ns if kN else Ns[0], repeated=rep, dist=pick(rng, ["normal", "uniform"]))
        c.note(x=x, Ns=Ns, ks=ks, rep=rep, dist=kw["dist"])
        ops, data, std = seeded(seed, lambda: random_linear_wme_problem(refp, s_arg, **kw))
        c.check("one data set per quantity", len(ops) == len(data) == len(std) == Q, len(ops), len(data), len(std))
        Z = []
        for A, y, n, s, sg in zip(ops, data, Ns, sds, std):
            c.check("operator", np.shape(A) == ((1 if rep or n == 1 else n), d), np.shape(A), "for", n, "observations, repeated", rep)
            if kw["dist"] == "uniform":
                c.check("operator", (A >= 0).all() and (A <= 1).all(), A)
            else:
                c.check("operator", np.abs(A).max() < 7, A)
            c.check("one data set per quantity", np.shape(y) == (n,), np.shape(y), n)
            clean = np.broadcast_to((A @ x), (n,))
            if ks == 2:
                c.close("noiseless", y, clean, rtol=1e-10, atol=1e-12)
            else:
                z = (y - clean) / s
                c.check("noise of the requested size", (np.abs(z) < 6.5).all() and (n < 2 or np.ptp(z) > 0), "standardised noise", z)
                Z += list(z)
            c.close("one data set per quantity", np.broadcast_to(sg, (n,)), s, rtol=1e-12, msg="returned noise level")
            if rep:
                c.saw("repeated measurements")
        if Q > 1:
            c.check("operator", not np.array_equal(ops[0][0], ops[1][0]), "quantities share their operator", ops[0], ops[1])
        if len(Z) > 40:
            Z = np.array(Z)
            tol = 6 / np.sqrt(len(Z))
            c.check("noise of the requested size", abs(Z.mean()) < tol and abs(Z.std() - 1) < tol, "mean", Z.mean(), "sd", Z.std())
        if ks in (0, 1):
            s2 = 3 * np.asarray(s_arg) if ks else 3 * s_arg
            o2, d2, _ = seeded(seed, lambda: random_linear_wme_problem(refp, s2, **kw))
            for A, B, y, z in zip(ops, o2, data, d2):
                c.same("noise proportional to std", B, A)
                c.close("noise proportional to std", z - A @ x, 3 * (y - A @ x), rtol=1e-7, atol=1e-9 * (1 + np.abs(A @ x).max()))
        if ks == 4:
            c.refused("mismatch refused", lambda: random_linear_wme_problem(refp, [np.ones(n + 1) for n in Ns], **kw), (AssertionError, ValueError))
        if ks == 1:
            c.refused("mismatch refused", lambda: random_linear_wme_problem(refp, list(s_arg) + [1.0], **kw), (AssertionError, ValueError))
        if kN:
            c.refused("mismatch refused", lambda: random_linear_wme_problem(refp, 0.5, **{**kw, "num_observations": Ns + [3]}), (AssertionError, ValueError))
        if rep and ks in (0, 1, 3) and Q <= d:
            P = LinearWMEProblem(ops, data, s_arg if ks == 0 else list(np.ravel(s_arg)), mean_i=np.zeros((d, 1)), cov_i=np.eye(d))
            sol = P.solve("mud")
            got = np.array([float(A @ sol) for A in ops])
            want = np.array([y.mean() for y in data])
            if np.linalg.cond(np.vstack(ops)) < 1e3:
                c.close("usable", got, want, rtol=1e-6, atol=1e-6, msg="MUD solution reproduces the mean of each data set")
    else:
        N = int(rng.integers(1, 40))
        one = chance(rng, 0.5)
        A = rng.normal(size=(1 if one else N, d)) * 3
        kw = {"num_data": N} if one or chance(rng, 0.5) else {}
        s_arg = pick(rng, [0.0, float(rng.uniform(0.05, 2)), 1, np.float64(0.4), rng.uniform(0.1, 2, N), rng.uniform(0.1, 2, (N, 1)).ravel()])
        c.note(A=A, x=x, N=N, s=s_arg)
        if one and N == 1:
            kw = {}
        y = seeded(seed, lambda: noisy_linear_data(A.copy(), refp, s_arg, **kw))
        c.check("one data set per quantity", np.shape(y) == (N,), np.shape(y), N)
        clean = np.broadcast_to(A @ x, (N,))
        s = np.broadcast_to(s_arg, (N,))
        if np.ndim(s_arg) == 0 and s_arg == 0:
            c.close("noiseless", y, clean, rtol=1e-10, atol=1e-12)
        else:
            z = (y - clean) / s
            c.check("noise of the requested size", (np.abs(z) < 6.5).all() and (N < 2 or np.ptp(z) > 0), "standardised noise", z)
            if N > 25:
                c.check("noise of the requested size", abs(z.mean()) < 6 / np.sqrt(N) and abs(z.std() - 1) < 5 / np.sqrt(N), z.mean(), z.std())
            y2 = seeded(seed, lambda: noisy_linear_data(A.copy(), refp, s_arg * 2, **kw))
            c.close("noise proportional to std", y2 - clean, 2 * (y - clean), rtol=1e-7, atol=1e-9 * (1 + np.abs(clean).max()))
        y3 = seeded(seed + 1, lambda: noisy_linear_data(A.copy(), refp, s_arg, **kw))
        c.check("seeded", (np.asarray(s_arg) == 0).all() or (y3 != y).all(), y3, y)
        E_ = (AssertionError, ValueError)
        c.refused("mismatch refused", lambda: noisy_linear_data(A, list(x) + [1.0], 0.1, num_data=N), E_)
        if not one or N == 1:
            pass
        if A.shape[0] > 1:
            c.refused("mismatch refused", lambda: noisy_linear_data(A, refp, 0.1, num_data=A.shape[0] + 1), E_)
        c.refused("mismatch refused", lambda: noisy_linear_data(A, refp, np.ones(N + 1), num_data=N), E_)


@scenario("C35", "linear data defects", 16, 160, need=["given a scalar noise level", "given integer noise levels", "operator of every observation"])
def c35_data_defects(c):
    """The calls recorded as failing: each is right, or fails exactly as recorded."""
    from mud.examples.linear import noisy_linear_data, random_linear_wme_problem

    rng = c.rng
    d = int(rng.integers(1, 6))
    x = rng.normal(size=d)
    Q, n = int(rng.integers(2, 5)), int(rng.integers(5, 12))
    seed = int(rng.integers(2**31))
    c.note(x=x, Q=Q, n=n)

    def right(lab, out, Q, n, sd, rep):
        ops, data, std = out
        for A, y in zip(ops, data):
            c.check(lab, np.shape(A) == ((1 if rep else n), d) and np.shape(y) == (n,), np.shape(A), np.shape(y))
            z = (y - (A @ x).ravel()) / sd
            c.check(lab, (np.abs(z) < 6.5).all() and np.ptp(z) > 0, z)
        c.check(lab, len(ops) == len(data) == Q, len(ops))

    def attempt(lab, defect, call, exc, text, judge):
        c.saw(lab)
        try:
            out = seeded(seed, call)
        except exc as e:
            if text not in str(e):
                raise
            c.defect(defect, False, f"{type(e).__name__}: {e}")
        else:
            judge(out)

    lab = "given a scalar noise level"
    attempt(lab, "scalar noise level for several quantities", lambda: random_linear_wme_problem(x, 0.3, num_qoi=Q, num_observations=n, repeated=True),
            AssertionError, "", lambda o: right(lab, o, Q, n, 0.3, True))
    lab = "given integer noise levels"
    attempt(lab, "array of integer noise levels", lambda: random_linear_wme_problem(x, np.arange(1, Q + 1), num_qoi=Q, num_observations=n, repeated=True),
            AssertionError, f"St. Dev / Data mismatch. data: {n}, s: 1", lambda o: right(lab, o, Q, n, Q, True))
    attempt(lab, "numpy integer noise level", lambda: noisy_linear_data(rng.normal(size=(n, d)), x, np.int64(2)),
            AssertionError, f"St. Dev / Data mismatch. data: {n}, std: 1", lambda y: c.check(lab, np.shape(y) == (n,)))
    lab = "operator of every observation"
    c.saw(lab)
    try:
        ops, data, _ = seeded(seed, lambda: random_linear_wme_problem(x, [0.3] * Q, num_qoi=Q, num_observations=n))
    except ValueError as e:
        c.defect("separate operators", False, f"ValueError: {e}")
    else:
        right(lab, (ops, data, None), Q, n, 0.3, False)
    ops, data, _ = seeded(seed, lambda: random_linear_wme_problem(x, [0.3], num_qoi=1, num_observations=n))
    if np.shape(ops[0]) == (1, d):
        right(lab, (ops, data, None), 1, n, 0.3, True)
        c.defect("one operator row for all observations", False, "one row for", n, "observations that are not repeated")
    else:
        right(lab, (ops, data, None), 1, n, 0.3, False)


@scenario("C35", "rotation map", 160, 1600, need=["operator", "data of the true parameter", "initial covariance", "seeded", "trials: errors", "trials: rows visited"])
def c35_rotation(c):
    import mud.base
    from matplotlib import pyplot as plt
    from scipy.stats import norm

    from mud.examples import linear as L

    from .taps import Tap

    rng = c.rng
    n = int(rng.integers(2, 14))
    tol = float(rng.uniform(0.01, 2))
    seed = int(rng.integers(2**31))
    kw = dict(qnum=n, tol=tol, seed=seed)
    b = np.zeros((n, 1))
    x = np.array([[0.5], [0.5]])
    if chance(rng, 0.5):
        b = rng.normal(size=(n, 1))
        kw["b"] = b.copy()
    if chance(rng, 0.5):
        x = rng.normal(size=(2, 1))
        kw["ref_param"] = x.copy()
    c.note(n=n, tol=tol, b=b, x=x)
    A, bb, y, mean, cov, ref_ = L.rotation_map(**kw)
    th = np.pi * np.arange(n) / (n - 1)
    c.close("operator", A, np.column_stack([np.sin(th), np.cos(th)]), rtol=0, atol=1e-12)
    c.close("data of the true parameter", np.ravel(y), (A @ x + b).ravel(), rtol=1e-12, atol=1e-13)
    c.same("data of the true parameter", ref_, x)
    c.same("data of the true parameter", bb, b)
    c.check("initial covariance", np.shape(mean) == (2, 1) and np.shape(cov) == (2, 2), np.shape(mean), np.shape(cov))
    s = cov[0, 0]
    c.check("initial covariance", np.array_equal(cov, s * np.eye(2)), cov)
    c.close("initial covariance", norm.cdf(tol / s) - norm.cdf(-tol / s), 0.95, rtol=1e-6)
    again = L.rotation_map(**kw)
    c.same("seeded", again[3], mean)
    if np.array_equal(L.rotation_map(**{**kw, "seed": seed + 1})[3], mean):
        c.same("seeded", np.ravel(mean), np.random.RandomState(24).randn(2))
        c.defect("seed replaced by 24", False, "seeds", seed, "and", seed + 1, "give the same initial mean", mean)

    # trials: every problem solved is this map's, visits the rows the method says
    method = pick(rng, ["ordered", "shuffle", "batch", "random"])
    trials = int(rng.integers(1, 5))
    budget = n * int(rng.integers(1, 4)) + int(rng.integers(0, n))
    ep = budget // n
    record = []
    I = mud.base.IterativeLinearProblem

    class IterTap(Tap):
        cls = I
        methods = ("__init__", "solve", "get_errors")

        def after(self, obj, st, name, a, out):
            if name == "__init__":
                st["args"] = a
            elif name == "get_errors":
                record.append((st["args"], a, np.array(out), [np.array(v) for ch in obj.solution_chains for v in ch[1:]]))

    fig, ax = plt.subplots()
    go = lambda: L.rotation_map_trials(numQoI=n, method=method, num_trials=trials, model_eval_budget=budget, ax=ax, color="b", label="lab", seed=seed)
    with IterTap(c):
        try:
            go()
        except TypeError as e:
            if "unexpected keyword argument 'initial_mean'" not in str(e):
                raise
            c.defect("trials cannot be run", False, f"TypeError: {e}")
            # judge the rest of the function with the argument passed on
            whole = L.IterativeLinearProblem
            L.IterativeLinearProblem = lambda *a, initial_mean=None, **k: whole(*a, mu_i=initial_mean, **k)
            try:
                go()
            finally:
                L.IterativeLinearProblem = whole
    c.check("trials: errors", len(record) >= trials, len(record))
    errs, starts = [], []
    last = {}
    for i, r in enumerate(record):  # plotting may ask for the errors too
        last[id(r[0])] = r
    rows_ = list(last.values())
    c.check("trials: errors", len(rows_) == trials, "problems", len(rows_), "trials", trials)
    for args, a, out, chain in rows_:
        c.close("trials: errors", np.asarray(args["A"]), np.column_stack([np.sin(th), np.cos(th)]), rtol=0, atol=1e-12, msg="operator")
        idx = np.ravel(args["idx_order"])
        k = len(chain)
        c.check("trials: rows visited", k == ep * n, method, "visits", k, "rows, budget", budget, "for", n, "rows")
        if method == "ordered":
            c.check("trials: rows visited", list(idx) == list(range(n)), idx)
        elif method == "shuffle":
            c.check("trials: rows visited", sorted(idx) == list(range(n)), idx)
        elif method == "batch":
            c.check("trials: rows visited", sorted(idx) == sorted(list(range(n)) * ep), idx)
        else:
            c.check("trials: rows visited", len(idx) == ep * n and set(idx) <= set(range(n)), idx)
        e = np.array([np.linalg.norm(np.ravel(v) - 0.5) for v in chain])
        c.close("trials: errors", np.ravel(out), e, rtol=1e-6, atol=1e-9, msg="errors")
        errs.append(e)
        starts.append(np.ravel(args["mu_i"]))
    if trials > 1:
        c.check("trials: errors", len({tuple(s_) for s_ in starts}) == trials, "trials share a start", starts)
    avg = ax.get_lines()[-1]
    c.check("trials: errors", avg.get_label() == "lab", avg.get_label())
    c.close("trials: errors", np.ravel(avg.get_ydata()), np.mean(errs, axis=0), rtol=1e-9, msg="average drawn")
