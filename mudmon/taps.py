"""Online monitors: taps on the public methods of the real classes, each feeding
a shadow model of what the client has asked for; every answer the client
receives is judged against the shadow at the moment it is given."""
import copy
import inspect

import numpy as np

from . import ref


def own(v):
    """A private copy of arrays/containers; everything else by reference."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(own(x) for x in v)
    if isinstance(v, dict):
        return {k: own(x) for k, x in v.items()}
    return v


class Tap:
    """Wraps methods of `cls`; only calls made by the client (not those the
    object makes to itself) reach `before`/`after`."""

    cls = None
    methods = ()

    def __init__(self, c):
        self.c = c
        self.objs = {}
        self.saved = []
        self.trace = []
        self.closed = False

    def state(self, obj):
        return self.objs[id(obj)][1]

    def watching(self, obj):
        return id(obj) in self.objs

    def __enter__(self):
        for name in self.methods:
            orig = self.cls.__dict__.get(name)
            if orig is None:
                orig = getattr(self.cls, name, None)
                if orig is None:
                    continue
                self.saved.append((name, None))
            else:
                self.saved.append((name, orig))
            setattr(self.cls, name, self._wrap(name, orig))
        return self

    def __exit__(self, *exc):
        for name, orig in self.saved:
            if orig is None:
                delattr(self.cls, name)
            else:
                setattr(self.cls, name, orig)
        self.saved = []
        self.closed = True

    def _wrap(self, name, orig):
        sig = inspect.signature(orig)

        def tapped(obj, *a, **k):
            ent = self.objs.setdefault(id(obj), [obj, {}, 0])
            if ent[2] > 0:
                return orig(obj, *a, **k)
            bound = sig.bind(obj, *a, **k)
            bound.apply_defaults()
            args = {n: own(v) for n, v in list(bound.arguments.items())[1:]}
            ent[2] += 1
            try:
                out = orig(obj, *a, **k)
            finally:
                ent[2] -= 1
            self.c.saw(f"event {self.cls.__name__}.{name}")
            self.trace.append(name)
            self.after(obj, ent[1], name, args, out)
            return out

        tapped.__name__ = name
        tapped.__doc__ = orig.__doc__
        tapped.__wrapped__ = orig
        return tapped

    def after(self, obj, st, name, args, out):
        raise NotImplementedError


class DensityMonitor(Tap):
    """Judges every estimate and expected ratio of every density problem."""

    methods = (
        "__init__", "set_weights", "set_observed", "set_initial", "set_predicted", "fit",
        "mud_point", "estimate", "expected_ratio", "plot_param_space", "plot_obs_space",
    )

    def __init__(self, c, ratio=True):
        import mud.base

        self.cls = mud.base.DensityProblem
        super().__init__(c)
        self.ratio = ratio

    def after(self, obj, st, name, a, out):
        if name == "__init__":
            X, y = np.array(a["X"]), np.array(a["y"])
            st["X"] = X.reshape(-1, 1) if X.ndim < 2 else X
            st["y"] = y.reshape(-1, 1) if y.ndim < 2 else y
            if a["domain"] is not None:
                st["domain"] = np.reshape(np.array(a["domain"], dtype=float), (-1, 2))
            else:
                lo, hi = st["X"].min(axis=0), st["X"].max(axis=0)
                pad = a["pad_domain"] * (hi - lo)
                st["domain"] = np.column_stack([lo - pad, hi + pad]).astype(float)
                if np.issubdtype(st["X"].dtype, np.integer):
                    st["domain"] = np.array(obj.domain, dtype=float)  # integer boxes are truncated
            st.update(ini=None, ob=None, pr=None)
            self.set_w(st, a["weights"], a["normalize"])
        elif name == "set_weights":
            self.set_w(st, a["weights"], a["normalize"])
        elif name == "set_observed":
            st["ob"] = a["distribution"]
        elif name == "set_initial":
            self.set_in(st, a["distribution"])
        elif name == "set_predicted":
            self.set_pr(st, a)
        elif name == "fit":
            self.fill(st, a.get("kwargs", {}))
        elif name in ("mud_point", "estimate"):
            self.fill(st, {})
            self.judge_point(st, out)
        elif name == "expected_ratio":
            self.fill(st, {})
            self.judge_ratio(st, out)
        else:  # plots solve first when needed
            self.fill(st, {})

    def set_w(self, st, w, normalize=False):
        st["w"] = ref_combined(w, len(st["y"]), normalize)
        st["pr"] = None

    def set_in(self, st, d):
        if d is None:
            from scipy.stats import distributions as dist

            lo, hi = st["domain"].min(axis=1), st["domain"].max(axis=1)
            d = dist.uniform(loc=lo, scale=hi - lo)
        st["ini"] = d
        st["pr"] = None

    def set_pr(self, st, a):
        if a.get("weights") is not None:
            self.set_w(st, a["weights"])
        kw = dict(a.get("kwargs") or {})
        if a.get("distribution") is not None:
            st["pr"] = ("given", a["distribution"], kw)
        else:
            st["pr"] = ("kde", a.get("bw_method"), None)

    def fill(self, st, kw):
        if st["ini"] is None:
            self.set_in(st, None)
        if st["pr"] is None:
            kw = dict(kw)
            args = {k: kw.pop(k) for k in ("distribution", "bw_method", "weights") if k in kw}
            self.set_pr(st, {**args, "kwargs": kw})
        if st["ob"] is None:
            from scipy.stats import distributions as dist

            st["ob"] = dist.norm()

    def values(self, st):
        inn = ref.rows_of(st["ini"], st["X"])
        ob = ref.rows_of(st["ob"], st["y"])
        kind, d, kw = st["pr"]
        if kind == "kde":
            pr = ref.kde_at(st["y"], st["w"], d)
        else:
            pr = ref.rows_of(d, st["y"], **kw)
        return inn, ob, np.ravel(pr)

    def judge_point(self, st, out):
        inn, ob, pr = self.values(st)
        ref.judge_argmax(self.c, "estimate", out, st["X"], ref.updated(inn, st["w"], ob, pr))

    def judge_ratio(self, st, out):
        if not self.ratio:
            return
        inn, ob, pr = self.values(st)
        w = np.asarray(st["w"], dtype=float)
        r = ref.ratio(ob, pr, w)
        use = w != 0
        want = np.sum(w[use] * r[use]) / np.sum(w)
        if np.isfinite(want) and want > 1e250:
            return
        self.c.close("expected ratio", out, want, rtol=1e-8, atol=1e-12 if want == 0 else 0.0)


def ref_combined(w, n, normalize):
    from .gen import combined

    return combined(w, n, normalize)


class BayesMonitor(Tap):
    """Judges every MAP estimate of every Bayes problem."""

    methods = ("__init__", "set_likelihood", "set_prior", "fit", "map_point", "estimate", "plot_param_space")

    def __init__(self, c):
        import mud.base

        self.cls = mud.base.BayesProblem
        super().__init__(c)

    def after(self, obj, st, name, a, out):
        if name == "__init__":
            X, y = np.array(a["X"]), np.array(a["y"])
            st["X"] = X.reshape(1, -1) if X.ndim < 2 else X
            st["y"] = y.reshape(1, -1) if y.ndim < 2 else y
            if a["domain"] is not None:
                st["domain"] = np.reshape(np.array(a["domain"], dtype=float), (-1, 2))
            else:
                lo, hi = st["X"].min(axis=0), st["X"].max(axis=0)
                st["domain"] = np.column_stack([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)]).astype(float)
                if np.issubdtype(st["X"].dtype, np.integer):
                    st["domain"] = np.array(obj.domain, dtype=float)
            st.update(pr=None, ll=None, log=False)
        elif name == "set_likelihood":
            st["ll"], st["log"] = a["distribution"], a["log"]
        elif name == "set_prior":
            self.set_pr(st, a["distribution"])
        elif name in ("map_point", "estimate"):
            self.fill(st)
            self.judge(st, out)
        else:
            self.fill(st)

    def set_pr(self, st, d):
        if d is None:
            from scipy.stats import distributions as dist

            lo, hi = st["domain"].min(axis=1), st["domain"].max(axis=1)
            d = dist.uniform(loc=lo, scale=hi - lo)
        st["pr"] = d

    def fill(self, st):
        if st["pr"] is None:
            self.set_pr(st, None)

    def logpost(self, st):
        with np.errstate(all="ignore"):
            lp = np.log(ref.rows_of(st["pr"], st["X"]))
            lv = np.asarray(st["ll"].logpdf(st["y"]))
            out = lp
            for j in range(lv.shape[1]):
                out = out + lv[:, j]
            # could any order of multiplication leave the floating-point range?
            fin = np.isfinite(out)
            st["extreme"] = bool(
                fin.any() and (np.max(np.where(lv > 0, lv, 0)[fin].sum(axis=1)) > 600)
            )
            best = int(np.argmax(out))
            st["extreme"] |= bool(fin.any() and np.where(lv[best] < 0, lv[best], 0).sum() < -600)
        return out

    def judge(self, st, out):
        lp = self.logpost(st)
        c = self.c
        pt = np.asarray(out)
        X = st["X"]
        c.check("MAP: complete sample row", pt.shape == (X.shape[1],), "point", pt)
        hit = np.flatnonzero((X == pt).all(axis=1))
        c.check("MAP: complete sample row", hit.size > 0, "point", pt, "is not among the samples")
        best = np.max(lp)
        got = np.max(lp[hit])
        if np.isnan(best):  # the default prior of a domain without width
            c.saw("MAP: posterior undefined, not judged")
            return
        if st["log"]:
            tol = 1e-9 * max(1.0, abs(best))
        else:
            if st["extreme"] or best < -600:  # close to underflow of the plain product
                c.saw("MAP: underflow, not judged")
                return
            tol = 1e-9 * max(1.0, abs(best))
        c.check("MAP: maximal", got >= best - tol, "chosen sample has log posterior", got,
                "but sample", int(np.argmax(lp)), "has", best)
