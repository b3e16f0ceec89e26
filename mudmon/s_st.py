"""C20-C25: spatio-temporal problems."""
import os
import pickle

import numpy as np

from . import gen
from .core import rule, scenario
from .gen import chance, pick


def STP(df=None):
    from mud.base import SpatioTemporalProblem

    return SpatioTemporalProblem(df) if df is not None else SpatioTemporalProblem()


FIELDS = ("domain", "lam", "data", "measurements", "lam_ref", "true_vals", "sample_dist", "sensors", "times", "std_dev")


def snap(st):
    return {f: np.array(v, copy=True) if isinstance(v := getattr(st, f), np.ndarray) else v for f in FIELDS}


def same_state(c, label, st, before, msg=""):
    for f, v in before.items():
        w = getattr(st, f)
        if v is None or w is None:
            c.check(label, v is None and w is None, f"{msg}: field {f} was", v, "is", w)
        else:
            c.same(label, w, v, f"{msg}: field {f}")


class Study:
    """Contents of one spatio-temporal study: data[i, s, t]."""

    def __init__(self, rng, n=None, S=None, T=None, p=None, lo=1, distinct=True, big=True):
        self.n = n or int(rng.integers(max(lo, 2), 14))
        self.S = S or int(rng.integers(1, 6))
        self.T = T or int(rng.integers(1, 7))
        if big and n is None and chance(rng, 0.06):  # larger in one direction
            a, k = int(rng.integers(3)), int(rng.integers(20, 150))
            self.n = pick(rng, [k, 6 * k]) if a == 0 else self.n
            self.S = k if a == 1 and S is None else self.S
            self.T = k if a == 2 and T is None else self.T
        self.p = p or int(rng.integers(1, 4))
        self.lam, box = gen.samples(rng, self.n, self.p)
        while np.ptp(self.lam, axis=0).min() == 0:
            self.lam, box = gen.samples(rng, self.n, self.p)
        pad = (box[:, 1:] - box[:, :1]) * 0.1
        self.domain = np.hstack([box[:, :1] - pad, box[:, 1:] + pad])
        k = int(rng.integers(3))
        if k == 0:  # every entry names its own place
            i, s, t = np.indices((self.n, self.S, self.T))
            self.data = 1.0 * (10000 * i + 100 * s + t)
        else:
            self.data = rng.normal(size=(self.n, self.S, self.T)) * 10.0 ** rng.integers(-2, 3)
        if chance(rng, 0.15):  # every datum in its own units
            self.data = self.data * 10.0 ** rng.uniform(-2, 6, (self.S, self.T))
        if chance(rng, 0.1):
            self.data = self.data * 10.0 ** rng.integers(-13, 10)
        self.true = self.data[int(rng.integers(self.n))] + 0.1 * np.abs(self.data).max() * rng.normal(size=(self.S, self.T))
        self.sd = float(10.0 ** rng.uniform(-2, 1)) * (np.abs(self.data).std() + 1e-3 * np.abs(self.data).max())
        self.meas = self.true + self.sd * rng.normal(size=(self.S, self.T))
        self.sensors = pick(rng, [rng.random((self.S, 2)), rng.random((self.S, 3)), rng.random(self.S), np.arange(self.S) * 10])
        self.times = pick(rng, [np.arange(self.T), np.sort(rng.random(self.T)) * 50, 3.5 + np.arange(self.T)])
        self.ref = (self.lam[0] + self.lam[1]) / 2
        self.meas_set = True

    def build(self, rng, measurements=True, true_vals=True, std=True):
        st = STP()
        st.domain = self.domain.copy()
        st.sensors = self.sensors.copy()
        st.times = self.times.copy()
        st.lam = gen.form(rng, self.lam) if not (self.p == 1 and chance(rng, 0.5)) else self.lam[:, 0].copy()
        st.data = gen.form(rng, self.data if chance(rng, 0.5) else self.data.reshape(self.n, -1), lists=False)
        if measurements:
            st.measurements = gen.form(rng, pick(rng, [self.meas, self.meas.reshape(-1, 1), self.meas.ravel()]))
        if true_vals:
            st.true_vals = pick(rng, [self.true, self.true.reshape(-1, 1), self.true.ravel()]).copy()
        if std:
            st.std_dev = self.sd
        return st

    def mask(self, rng, k, lists=True):
        """-> (mask argument, indices it means)"""
        kind = int(rng.integers(8))
        idx = np.arange(k)
        if kind <= 1:
            return None, idx
        if kind == 2:
            b = rng.random(k) < 0.6
            b[int(rng.integers(k))] = True
            return (b if chance(rng, 0.6) or not lists else b.tolist()), idx[b]
        if kind == 3:
            a, z = sorted(int(v) for v in rng.choice(k + 1, 2, replace=False)) if k > 0 else (0, 1)
            s = slice(a, z)
            if chance(rng, 0.3):
                s = slice(None, None, pick(rng, [2, -1]))
            return s, idx[s]
        if kind == 4:  # repeated entries
            i = rng.integers(0, k, int(rng.integers(1, k + 3)))
        elif kind == 5:  # counted from the end
            i = rng.integers(-k, 0, int(rng.integers(1, k + 1)))
        elif kind == 6:
            i = rng.integers(0, k, 1)
        else:
            i = rng.permutation(k)[: int(rng.integers(1, k + 1))]
        return (i if chance(rng, 0.5) or not lists else [int(v) for v in i]), idx[i]

    def note(self, c, **kw):
        c.note(n=self.n, S=self.S, T=self.T, lam=self.lam, data=self.data, meas=self.meas, **kw)


def masks(rng, w):
    (sm, si), (tm, ti), (xm, xi) = w.mask(rng, w.n), w.mask(rng, w.T), w.mask(rng, w.S)
    kw = {}
    for k, v in (("samples_mask", sm), ("times_mask", tm), ("sensors_mask", xm)):
        if v is not None or chance(rng, 0.3):
            kw[k] = v
    return kw, si, ti, xi


# ------------------------------------------------------------------ C20
rule("C20", "Random studies (3-D and flattened, location and index sensors) with random combinations of selections of all kinds; returned values are compared with direct indexing of the study's own data cube, state before and after.")


@scenario("C20", "selections", 2400, 60000, need=["parameters", "times", "sensors", "simulated values", "measurements", "problem unchanged", "no measurements"])
def c20_sel(c):
    rng = c.rng
    w = Study(rng)
    has = chance(rng, 0.8)
    st = w.build(rng, measurements=has)
    for _ in range(int(rng.integers(1, 5))):
        kw, si, ti, xi = masks(rng, w)
        w.note(c, masks={k: repr(v) for k, v in kw.items()})
        before = snap(st)
        lam, times, sensors, data, meas = st.sample_data(**kw)
        c.same("parameters", lam, w.lam[si], repr(kw))
        c.same("times", np.ravel(times), w.times[ti], repr(kw))
        c.same("sensors", np.ravel(sensors), w.sensors[xi].ravel(), repr(kw))
        c.check("sensors", len(sensors) == len(xi), "rows", np.shape(sensors))
        want = np.array([[w.data[i, s, t] for s in xi for t in ti] for i in si])
        c.same("simulated values", data, want, repr(kw))
        if has:
            c.same("measurements", np.ravel(meas), np.array([w.meas[s, t] for s in xi for t in ti]), repr(kw))
        else:
            c.check("no measurements", meas is None)
        same_state(c, "problem unchanged", st, before, repr(kw))


@scenario("C20", "layouts agree", 600, 12000, need=["flattened data = cube"])
def c20_layout(c):
    rng = c.rng
    w = Study(rng)
    kw, *_ = masks(rng, w)
    w.note(c, masks={k: repr(v) for k, v in kw.items()})
    outs = []
    for d in (w.data.copy(), w.data.reshape(w.n, -1).copy(), np.asfortranarray(w.data)):
        st = STP()
        st.sensors, st.times = w.sensors.copy(), w.times.copy()
        st.lam = w.lam.copy()
        st.data = d
        st.measurements = w.meas.copy()
        outs.append(st.sample_data(**kw))
        c.check("sizes", (st.n_samples, st.n_sensors, st.n_ts, st.n_params) == (w.n, w.S, w.T, w.p))
    for o in outs[1:]:
        for a, b in zip(o, outs[0]):
            c.same("flattened data = cube", a, b)
    if w.S * w.T == 1:  # one datum per sample, given as a plain vector
        st = STP()
        if chance(rng, 0.5):
            st.sensors = w.sensors.copy()
        if chance(rng, 0.5):
            st.times = w.times.copy()
        st.lam = w.lam.copy()
        st.data = w.data.reshape(-1).copy()
        c.same("flattened data = cube", st.sample_data()[3], w.data.reshape(w.n, 1))
        c.check("sizes", (st.n_sensors, st.n_ts, st.n_samples) == (1, 1, w.n), st.n_sensors, st.n_ts)
    if w.S == 1 or w.T == 1:  # only one of the two declared
        st = STP()
        st.lam = w.lam.copy()
        if w.S == 1 and (w.T > 1 or chance(rng, 0.5)):
            st.times = w.times.copy()
        else:
            st.sensors = w.sensors.copy()
        st.data = w.data.reshape(w.n, -1).copy() if chance(rng, 0.5) or w.S * w.T > 1 else w.data.reshape(-1).copy()
        c.same("flattened data = cube", st.sample_data()[3], w.data.reshape(w.n, -1))
        c.check("sizes", (st.n_sensors, st.n_ts) == (w.S, w.T), st.n_sensors, st.n_ts)
        c.saw("one axis declared")


# ------------------------------------------------------------------ C21
rule("C21", "Random assignment histories mixing consistent and contradicting values; a shadow model decides acceptance, a state snapshot is compared around each refusal; validation and early use are judged at every stage.")


@scenario("C21", "histories", 1600, 40000, need=["accepted and stored", "refused", "state kept after refusal", "validation names the missing fields", "early use refused"])
def c21_hist(c):
    rng = c.rng
    w = Study(rng)
    w.note(c)
    st = STP()
    have = {f: None for f in FIELDS}  # shadow
    hist = []

    def refuse(lab, f, v, exc=(ValueError, AttributeError)):
        before = snap(st)
        c.refused("refused", lambda: setattr(st, f, v), exc, lab)
        same_state(c, "state kept after refusal", st, before, lab)

    for _ in range(int(rng.integers(6, 20))):
        f = pick(rng, ["domain", "lam", "lam_ref", "data", "measurements", "true_vals", "sample_dist", "sensors", "times", "std_dev", "validate", "early"])
        bad = chance(rng, 0.45)
        hist.append((f, bad))
        p = len(have["domain"]) if have["domain"] is not None else None
        size = len(have["sensors"]) * len(have["times"]) if have["sensors"] is not None and have["times"] is not None else None
        if f == "domain":
            if bad and have["lam"] is not None:
                d = w.domain.copy()
                k = int(rng.integers(4))
                j = int(rng.integers(w.p))
                if k == 3:  # an undefined bound contains nothing
                    d[j, int(rng.integers(2))] = np.nan
                elif k == 0:
                    wide = [[w.domain.min(), w.domain.max()]]  # contains every value
                    d = np.vstack([d, pick(rng, [[[0.0, 1.0]], wide])]) if w.p == 1 or chance(rng, 0.4) else pick(rng, [d[:-1], np.array(wide)])
                elif k == 1:
                    d[j, 0] = np.nextafter(w.lam[:, j].min(), np.inf) if chance(rng, 0.3) else w.lam[:, j].min() + (1e-3 * np.ptp(w.lam[:, j]) or 1.0)
                else:
                    d[j, 1] = np.nextafter(w.lam[:, j].max(), -np.inf) if chance(rng, 0.3) else w.lam[:, j].max() - (1e-3 * np.ptp(w.lam[:, j]) or 1.0)
                refuse(f"domain case {k}", "domain", gen.form(rng, d))
            else:
                d = w.domain if chance(rng, 0.6) else np.column_stack([w.lam.min(axis=0), w.lam.max(axis=0)])
                st.domain = pick(rng, [d.copy(), d.tolist(), d.ravel().copy()])
                have["domain"] = d
                c.same("accepted and stored", st.domain, d)
        elif f == "lam":
            if bad and p is not None:
                k = p + 1 if p == 1 or chance(rng, 0.5) else p - 1
                refuse("samples of wrong dimension", "lam", np.zeros((w.n, k)) if k > 1 or chance(rng, 0.5) else np.zeros(w.n))
            else:
                st.lam = w.lam.tolist() if chance(rng, 0.4) else w.lam.copy()
                have["lam"] = w.lam
                if have["domain"] is None:
                    have["domain"] = np.column_stack([w.lam.min(axis=0), w.lam.max(axis=0)])
                if have["sample_dist"] is None:
                    have["sample_dist"] = "u"
                c.same("accepted and stored", st.lam, w.lam)
                c.same("accepted and stored", st.domain, have["domain"])
        elif f == "lam_ref":
            if have["domain"] is None:
                refuse("reference before domain", "lam_ref", w.ref)
                continue
            d = have["domain"]
            if bad:
                r = w.ref.copy()
                j = int(rng.integers(w.p))
                r[j] = pick(rng, [d[j, 0] - 1e-3 * (d[j, 1] - d[j, 0]), d[j, 1] + 0.5 * (d[j, 1] - d[j, 0]), np.nextafter(d[j, 1], np.inf), np.nextafter(d[j, 0], -np.inf)])
                if chance(rng, 0.3):
                    mid = (d[:, 0] + d[:, 1]) / 2
                    r = pick(rng, [mid[:-1], np.append(mid, mid[-1]), np.where(np.arange(w.p) == j, np.nan, mid)])
                    if have["lam"] is None and not len(r):
                        r = np.append(mid, mid[-1])
                    refuse("not a point of the domain", "lam_ref", r, (ValueError, IndexError))
                    continue
                refuse("reference outside", "lam_ref", pick(rng, [r, r.reshape(1, -1), r.tolist()]))
            else:
                r = pick(rng, [w.ref, d[:, 0], d[:, 1], w.lam[-1]]).copy()
                st.lam_ref = pick(rng, [r.copy(), r.reshape(-1, 1).copy(), r.tolist()])
                have["lam_ref"] = r
                c.same("accepted and stored", st.lam_ref, r)
        elif f == "data":
            declared = (have["sensors"] is not None, have["times"] is not None)
            if bad and any(declared):
                k = int(rng.integers(4))
                want = w.S * w.T if all(declared) else (w.S if declared[0] else w.T)
                if size is not None:
                    want = size
                d = np.zeros((w.n, want + 1)) if want == 1 or k == 0 else np.zeros((w.n, want - 1))
                if k == 2:
                    d = np.zeros((w.n, want + 1, 2))
                if k == 3 and w.n > 1:  # the right total for the number of samples, wrongly divided
                    f = pick(rng, [v for v in range(2, w.n + 1) if w.n % v == 0])
                    d = pick(rng, [np.zeros((w.n // f, want, f)), np.zeros((w.n // f, want * f)), np.zeros((w.n // f, f, want))])
                refuse("data of wrong size", "data", d)
            else:
                if declared == (True, False) and w.T != 1 or declared == (False, True) and w.S != 1:
                    refuse("data of wrong size", "data", w.data.copy())
                    continue
                if size is not None and size != w.S * w.T:
                    refuse("data of wrong size", "data", w.data.copy())
                    continue
                if w.n == 1:
                    continue
                st.data = w.data.copy() if chance(rng, 0.5) else w.data.reshape(w.n, -1).copy()
                have["data"] = w.data.reshape(w.n, -1)
                if not any(declared):
                    have["sensors"], have["times"] = np.array([0]), np.arange(w.S * w.T)
                elif not declared[1]:
                    have["times"] = np.array([0])
                elif not declared[0]:
                    have["sensors"] = np.array([0])
                c.same("accepted and stored", st.data, have["data"])
                c.check("accepted and stored", st.n_sensors * st.n_ts == w.S * w.T, st.n_sensors, st.n_ts)
        elif f in ("measurements", "true_vals"):
            if size is None:
                refuse(f"{f} before sizes", f, w.meas)
            elif bad or size != w.S * w.T:
                few = [v for v in {1, size - 1, len(have["sensors"]), len(have["times"]), size // 2} if 0 < v < size]
                k = pick(rng, few) if few and chance(rng, 0.5) else size + int(pick(rng, [1, 2, size]))
                refuse(f"{f} of wrong size", f, pick(rng, [np.zeros(k), np.zeros((k, 1)), [0.0] * k, np.zeros((1, k))]))
            else:
                v = w.meas if f == "measurements" else w.true
                setattr(st, f, pick(rng, [v.copy(), v.ravel().copy(), v.reshape(-1, 1).copy(), v.tolist()]))
                have[f] = v.reshape(-1, 1)
                c.same("accepted and stored", getattr(st, f), have[f])
        elif f == "sample_dist":
            if bad:
                refuse("unknown distribution", "sample_dist", pick(rng, ["x", "uniform", "", "U", "un", None, 3]))
            else:
                have[f] = pick(rng, ["u", "n"])
                st.sample_dist = have[f]
                c.check("accepted and stored", st.sample_dist == have[f])
        elif f in ("sensors", "times"):
            if have["data"] is None:
                v = w.sensors if f == "sensors" else w.times
                if have["measurements"] is None and have["true_vals"] is None:
                    setattr(st, f, v.copy())
                    have[f] = v
        elif f == "std_dev":
            st.std_dev = have[f] = w.sd
        elif f == "validate":
            meas, true = chance(rng, 0.5), chance(rng, 0.5)
            kw = {} if meas and not true and chance(rng, 0.5) else dict(check_meas=meas, check_true=true)
            req = ["domain", "lam", "data"] + (["measurements"] if meas else []) + (["lam_ref", "true_vals"] if true else [])
            miss = [r for r in req if have[r] is None]
            if miss:
                e = c.refused("validation names the missing fields", lambda: st.validate(**kw), ValueError, f"missing {miss}")
                named = [r for r in ("domain", "lam", "data", "measurements", "lam_ref", "true_vals", "sensors", "times") if f"'{r}'" in str(e)]
                c.check("validation names the missing fields", sorted(named) == sorted(miss), "named", named, "missing", miss)
            else:
                st.validate(**kw)
                c.saw("validation passes")
        else:
            E = (AttributeError, ValueError, TypeError)
            if have["lam"] is None:
                c.refused("early use refused", lambda: st.n_samples, AttributeError, "n_samples")
            if have["sensors"] is None:
                c.refused("early use refused", lambda: st.n_sensors, AttributeError, "n_sensors")
            if have["times"] is None:
                c.refused("early use refused", lambda: st.n_ts, AttributeError, "n_ts")
            if have["domain"] is None:
                c.refused("early use refused", lambda: st.n_params, AttributeError, "n_params")
            if have["data"] is None:
                c.refused("early use refused", lambda: st.sample_data(), AttributeError, "sample_data")
                c.refused("early use refused", lambda: st.mud_problem(), E, "mud_problem")
            if have["true_vals"] is None:
                c.refused("early use refused", lambda: st.get_closest_to_true_vals(), AttributeError, "closest to true values")
                c.refused("early use refused", lambda: st.measurements_from_reference(std_dev=None), AttributeError, "measurements_from_reference")
                have["std_dev"] = st.std_dev
    for f in FIELDS:
        v = have[f]
        if v is None:
            c.check("final state", getattr(st, f) is None, f, getattr(st, f))
        else:
            c.same("final state", getattr(st, f), v, f)
    c.note(hist=hist)


@scenario("C21", "orders", 600, 12000, need=["any valid order accepted"])
def c21_orders(c):
    """All orders in which each field finds what it is checked against."""
    rng = c.rng
    w = Study(rng)
    st = STP()
    todo = ["domain", "lam", "sensors", "times", "data", "measurements", "true_vals", "lam_ref", "std_dev", "sample_dist"]
    if chance(rng, 0.3):
        todo.remove("domain")
    done = []
    val = dict(domain=w.domain, lam=w.lam, sensors=w.sensors, times=w.times, data=w.data, measurements=w.meas,
               true_vals=w.true, lam_ref=w.ref, std_dev=w.sd, sample_dist=pick(rng, ["u", "n"]))
    while todo:
        ok = []
        for f in todo:
            need = {"data": ["sensors", "times"], "measurements": ["sensors", "times"], "true_vals": ["sensors", "times"],
                    "lam_ref": ["domain" if "domain" in done or "domain" in todo else "lam"]}.get(f, [])
            if all(n in done for n in need):
                ok.append(f)
        f = pick(rng, ok)
        v = val[f]
        setattr(st, f, v.copy() if isinstance(v, np.ndarray) else v)
        todo.remove(f)
        done.append(f)
    w.note(c, order=done)
    st.validate(check_meas=True, check_true=True)
    if "domain" not in done:
        val["domain"] = np.column_stack([w.lam.min(axis=0), w.lam.max(axis=0)])
    for f, v in val.items():
        if isinstance(v, np.ndarray):
            c.same("any valid order accepted", np.ravel(getattr(st, f)), np.ravel(v), f"{f} after {done}")
        else:
            c.check("any valid order accepted", getattr(st, f) == v, f, getattr(st, f), v)


# ------------------------------------------------------------------ C22
rule("C22", "Inverse problems built by every method, selection and weighting; the quantities of interest are recomputed from the data cube (own SVD of the standardised residuals), samples, domain and weights of the problem compared.")


def standardised(R):
    mu, sd = R.mean(axis=0), R.std(axis=0)
    flat = sd <= 10 * np.finfo(float).eps * np.maximum(np.abs(mu), 1e-300)
    return (R - mu) / np.where(flat, 1.0, sd), flat


@scenario("C22", "aggregates", 1600, 30000, need=["error-map quantity", "pca quantity", "svd quantity", "decomposition kept is the one used", "samples of the problem", "domain of the problem", "estimate of the problem"])
def c22_agg(c):
    from mud.base import DensityProblem

    rng = c.rng
    w = Study(rng, n=int(rng.integers(8, 30)))
    kw, si, ti, xi = masks(rng, w)
    si = np.asarray(si)
    if chance(rng, 0.15):  # precise measurements of a spread-out model
        w.sd *= 10.0 ** rng.uniform(-8, -2)
    # enough distinct samples for a density estimate
    if len(set(si.tolist())) < max(6, w.p + 4) or len(set(si.tolist())) < len(si):
        kw.pop("samples_mask", None)
        si = np.arange(w.n)
    st = w.build(rng)
    method = pick(rng, ["wme", "pca", "svd"])
    d = len(ti) * len(xi)
    R = np.array([[(w.meas[s, t] - w.data[i, s, t]) / w.sd for s in xi for t in ti] for i in si])
    dw = None
    if chance(rng, 0.4):
        W = rng.uniform(0.2, 3, (w.S, w.T))
        if chance(rng, 0.5 if method == "wme" else 0.1):  # some data switched off
            off = rng.random(W.shape) < 0.4
            if any(not off[s, t] for s in xi for t in ti):
                W[off] = 0.0
        dw = pick(rng, [W, np.asfortranarray(W), W.ravel(), W.reshape(-1, 1), W.ravel().tolist()])
        sub = np.array([W[s, t] for s in xi for t in ti])
        R = R * (sub / np.sqrt((sub**2).sum()))
    k = int(rng.integers(1, min(d, len(si), 4) + 1))
    sw = gen.weights(rng, len(si), w.p + 1, stacked=False, zeros=False) if chance(rng, 0.4) else None
    w.note(c, masks={a: repr(b) for a, b in kw.items()}, method=method, k=k, weighted=dw is not None, sw=sw)
    args = dict(kw)
    if dw is not None:
        args["data_weights"] = dw if isinstance(dw, list) else dw.copy(order="K")
    if sw is not None:
        args["sample_weights"] = sw.copy()
    if method != "pca" or chance(rng, 0.5):
        args["method"] = method
    if method != "wme" and (k != 2 or chance(rng, 0.5)):
        args["num_components"] = k
    if chance(rng, 0.4):  # another map learned from the same study earlier
        other = {"method": pick(rng, ["wme", "pca", "svd", method])}
        if other["method"] != "wme":
            other["num_components"] = int(rng.integers(1, min(w.S * w.T, w.n, 4) + 1))
        if chance(rng, 0.3):
            other["data_weights"] = rng.uniform(0.2, 3, w.S * w.T)
        try:
            st.mud_problem(**other)
            c.saw("second map from one study")
        except Exception:  # judged elsewhere
            pass
    before = snap(st)
    P = st.mud_problem(**args)
    same_state(c, "study unchanged", st, before)
    c.same("samples of the problem", P.X, w.lam[si])
    c.same("domain of the problem", P.domain, w.domain)
    y = np.asarray(P.y)
    if method == "wme":
        q = np.array([sum(r) for r in R.tolist()]) / np.sqrt(d)
        c.close("error-map quantity", y.ravel(), q, rtol=1e-9, atol=1e-11 * np.abs(R).max() * d)
        q = q.reshape(-1, 1)
    else:
        Z, flat = standardised(R)
        near = np.abs(R - R.mean(axis=0)).max(axis=0) < 1e-9 * np.abs(R).max()
        if near.any():
            c.saw("constant data, directions not judged")
            return
        u, s, vt = np.linalg.svd(Z, full_matrices=False)
        c.check("number of quantities", y.shape == (len(si), k), y.shape, k)
        kept = st.pca if method == "pca" else st.svd
        V = np.asarray(kept["vecs"] if method == "pca" else kept["singular_vectors"][:k])
        c.close("decomposition kept is the one used", R @ V.T, y, rtol=1e-8, atol=1e-10 * np.abs(R).max() * np.sqrt(d))
        if method == "pca":
            c.close("decomposition kept is the one used", kept["X_train"], Z @ V.T, rtol=1e-7, atol=1e-7 * np.sqrt(d))
        q = np.empty((len(si), k))
        for j in range(k):
            gap = min([abs(s[j] - s[i]) for i in range(len(s)) if i != j] + [s[j] if d > len(s) else np.inf]) / s[0]
            proj = R @ vt[j]
            if gap < 1e-6 or s[j] < 1e-6 * s[0]:
                c.saw("direction not unique")
                q[:, j] = y[:, j]
                continue
            sg = 1.0 if np.abs(y[:, j] - proj).max() <= np.abs(y[:, j] + proj).max() else -1.0
            c.close(f"{method} quantity", y[:, j], sg * proj, rtol=1e-6, atol=1e-12 / gap * np.abs(R).max() * np.sqrt(d), msg=f"component {j}")
            q[:, j] = sg * proj
    # the problem really uses them: same estimate as one built by hand
    span = np.ptp(q, axis=0)
    sv = np.linalg.svd((q - q.mean(axis=0)) / np.where(span > 0, span, 1), compute_uv=False)
    if span.min() <= 1e-9 * np.abs(q).max() or sv[-1] < 1e-3 * sv[0] or q.shape[1] + 2 > len(si):
        c.saw("quantities degenerate, estimate not judged")
        return
    if method == "wme":
        H = DensityProblem(w.lam[si].copy(), y.copy(), w.domain.copy(), weights=None if sw is None else sw.copy())
        c.same("estimate of the problem", P.estimate(), H.estimate())
        c.same("estimate of the problem", P.expected_ratio(), H.expected_ratio())
    else:
        c.check("estimate of the problem", any(np.array_equal(P.estimate(), r) for r in w.lam[si]))


@scenario("C22", "sample weights reach the problem", 300, 6000, need=["weighted estimate"])
def c22_weights(c):
    from mud.base import DensityProblem

    rng = c.rng
    w = Study(rng, n=int(rng.integers(12, 40)), p=int(rng.integers(1, 3)))
    st = w.build(rng)
    sw = gen.weights(rng, w.n, w.p + 3)
    w.note(c, sw=sw)
    P = st.mud_problem(method="wme", sample_weights=sw)
    q = (((w.meas - w.data) / w.sd).reshape(w.n, -1)).sum(axis=1) / np.sqrt(w.S * w.T)
    if np.ptp(q) < 1e-6 * np.abs(q).max():
        return
    H = DensityProblem(w.lam.copy(), np.array(P.y), w.domain.copy(), weights=sw)
    c.same("weighted estimate", P.estimate(), H.estimate())
    c.same("weighted estimate", P.expected_ratio(), H.expected_ratio())


@scenario("C22", "selection = subset", 600, 12000, need=["selection equals loading the subset"])
def c22_subset(c):
    rng = c.rng
    w = Study(rng, n=int(rng.integers(6, 14)))
    kw, si, ti, xi = masks(rng, w)
    st = w.build(rng)
    method = pick(rng, ["wme", "pca", "svd"])
    d = len(ti) * len(xi)
    k = int(rng.integers(1, min(d, len(si), 3) + 1))
    w.note(c, masks={a: repr(b) for a, b in kw.items()}, method=method)
    W = rng.uniform(0.5, 2, (w.S, w.T)) if chance(rng, 0.4) else None
    if len(si) < 2:
        return
    P = st.mud_problem(method=method, num_components=k, data_weights=None if W is None else W.copy(), **kw)
    sub = STP()
    sub.domain = w.domain.copy()
    sub.sensors, sub.times = w.sensors[xi], w.times[ti]
    sub.lam = w.lam[si]
    sub.data = w.data[np.ix_(si, xi, ti)]
    sub.measurements = w.meas[np.ix_(xi, ti)]
    sub.std_dev = w.sd
    Q = sub.mud_problem(method=method, num_components=k, data_weights=None if W is None else W[np.ix_(xi, ti)].copy())
    c.same("selection equals loading the subset", P.X, Q.X)
    c.same("selection equals loading the subset", P.domain, Q.domain)
    R = np.abs(w.meas - w.data).max() / w.sd
    if method == "wme":
        c.close("selection equals loading the subset", P.y, Q.y, rtol=1e-9, atol=1e-11 * R * d)
    else:
        c.check("selection equals loading the subset", P.y.shape == Q.y.shape)
        s = np.linalg.svd(standardised(np.array(((w.meas - w.data) / w.sd)[np.ix_(si, xi, ti)]).reshape(len(si), -1))[0], compute_uv=False)
        gaps = [abs(s[j] - s[i]) for j in range(k) for i in range(len(s)) if i != j] + ([s[k - 1]] if len(s) >= k else [0])
        if W is None and min(gaps) > 1e-3 * s[0]:
            for j in range(k):
                a, b = P.y[:, j], Q.y[:, j]
                c.check("selection equals loading the subset", min(np.abs(a - b).max(), np.abs(a + b).max()) <= 1e-6 * (np.abs(b).max() + R), a, b)


@scenario("C22", "refusals", 400, 8000, need=["unknown method refused", "mismatched weights refused", "mismatched sample weights refused"])
def c22_refuse(c):
    rng = c.rng
    w = Study(rng)
    st = w.build(rng)
    w.note(c)
    c.refused("unknown method refused", lambda: st.mud_problem(method=pick(rng, ["", "PCA", "wme ", "eig", None])), ValueError)
    k = w.S * w.T + int(pick(rng, [1, 2, w.S * w.T]))
    m = pick(rng, ["wme", "svd"])
    c.refused("mismatched weights refused", lambda: st.mud_problem(method=m, data_weights=np.ones(k)), ValueError)
    if w.S * w.T > 2:
        c.refused("mismatched weights refused", lambda: st.mud_problem(method=m, data_weights=[1.0] * (w.S * w.T - 1)), ValueError)
    c.refused("mismatched sample weights refused", lambda: st.mud_problem(method="wme", sample_weights=np.ones(w.n + 1)), (ValueError, AssertionError))


# ------------------------------------------------------------------ C23
rule("C23", "Noise drawn for signals of many shapes and levels: standardised draws are pooled and tested (KS, mean, variance, correlation between entries and between draws), seeds replayed.")


def judge_noise(c, Z, what):
    """Z (reps, d) should be independent standard normal."""
    from scipy import stats

    z = Z.ravel()
    N = len(z)
    c.check("noise is standard normal", stats.kstest(z, "norm").pvalue > 1e-9, what, "mean", z.mean(), "std", z.std())
    c.check("noise is standard normal", abs(z.mean()) < 7 / np.sqrt(N) and abs(z.std() - 1) < 7 / np.sqrt(2 * N), what, z.mean(), z.std(), N)
    m = Z.shape[0]
    if m > 50 and Z.shape[1] > 1:
        for j in range(min(6, Z.shape[1] - 1)):
            r = float(np.mean(Z[:, j] * Z[:, j + 1]))
            c.check("noise is independent", abs(r) < 8 / np.sqrt(m), what, "correlation of entries", j, j + 1, r)
    if m > 50:
        r = float(np.mean(Z[1:, 0] * Z[:-1, 0]))
        c.check("noise is independent", abs(r) < 8 / np.sqrt(m), what, "correlation of successive draws", r)


@scenario("C23", "add_noise", 64, 800, need=["noise is standard normal", "noise is independent", "same seed, same noise", "seeds differ", "zero noise"])
def c23_noise(c):
    from mud.util import add_noise

    rng = c.rng
    shape = pick(rng, [(1,), (3,), (20,), (4, 5), (7, 1), (1, 6), (2, 3, 2)])
    sig = rng.normal(size=shape) * 10.0 ** rng.integers(-2, 3)
    if chance(rng, 0.15):
        sig = np.round(sig * 3).astype(int)
    sd = float(10.0 ** rng.uniform(-3, 2))
    c.note(shape=shape, sd=sd, sig=sig)
    src = sig.copy()
    seed = 0 if chance(rng, 0.25) else int(rng.integers(1, 2**31 - 1000))
    f = lambda s: np.asarray(add_noise(gen.form(rng, sig), sd, seed=s))
    a = f(seed)
    c.check("shape kept", a.shape == sig.shape, a.shape, sig.shape)
    np.random.random(int(rng.integers(1, 9)))
    c.same("same seed, same noise", f(seed), a)
    c.check("seeds differ", not np.array_equal(f(seed + 1), a))
    for gap in [10**k for k in range(1, 9)] + [2**k for k in range(1, 31, 2)]:  # seeds alike in their last or first digits
        other = seed + gap if seed + gap < 2**32 else seed - gap
        c.check("seeds differ", other < 0 or not np.array_equal(f(other), a), "seeds", seed, other)
    c.same("zero noise", add_noise(sig, 0, seed=seed), sig * 1.0)
    c.same("zero noise", add_noise(sig, sd=0.0), sig * 1.0)
    c.check("fresh noise each time", not np.array_equal(f(None), f(None)))
    Z = np.array([(f(seed + i) - sig).ravel() / sd for i in range(800)])
    c.close("default level", (add_noise(sig, seed=seed) - sig).ravel() / 0.05, Z[0], rtol=1e-6, atol=1e-8 * np.abs(sig).max() / min(sd, 0.05))
    judge_noise(c, Z, "seeded draws")
    np.random.seed(seed)
    u = [f(None), f(None)]
    np.random.seed(seed)
    c.same("same global seed, same noise", [f(None), f(None)], u)
    np.random.seed(seed)
    Z = np.array([(f(None) - sig).ravel() / sd for _ in range(800)])
    judge_noise(c, Z, "unseeded draws")
    c.same("input kept", sig, src)


def judge_long(c, z, what):
    """A long record z should be independent standard normal: tails, and correlation at every lag and under reversal."""
    from scipy.stats import norm

    N = len(z)
    for t in (1.0, 2.0, 3.0, 3.5, 4.0):
        for side, k in (("above", int((z > t).sum())), ("below", int((z < -t).sum()))):
            m = N * norm.sf(t)
            c.check("tails of the noise", abs(k - m) < 8 * np.sqrt(m) + 12, what, f"{k} {side} {t}, expected {m:.1f}", N)
    m = 2 ** int(np.ceil(np.log2(2 * N)))
    F = np.fft.rfft(z, m)
    lag = np.fft.irfft(np.abs(F) ** 2, m)[1:N]
    rev = np.fft.irfft(F**2, m)[: 2 * N - 1]
    c.check("long noise is independent", np.abs(lag).max() < 9 * np.sqrt(N), what, "lag", int(np.abs(lag).argmax()) + 1, np.abs(lag).max() / N)
    c.check("long noise is independent", np.abs(rev).max() < 9 * np.sqrt(2 * N) + 30, what, "reversal about", int(np.abs(rev).argmax()) / 2, np.abs(rev).max() / N)
    c.check("noise is standard normal", abs(z.mean()) < 7 / np.sqrt(N) and abs(z.std() - 1) < 7 / np.sqrt(2 * N), what, z.mean(), z.std(), N)


@scenario("C23", "long signals", 24, 300, need=["tails of the noise", "long noise is independent", "same seed, same noise"])
def c23_long(c):
    """Signals as long as a sensor record, and studies with many measurements."""
    from mud.base import SpatioTemporalProblem
    from mud.util import add_noise

    rng = c.rng
    N = int(10.0 ** rng.uniform(2.5, 5.3)) * int(pick(rng, [1, 2]))
    sd = float(10.0 ** rng.uniform(-3, 2))
    seed = int(rng.integers(0, 2**31 - 1000))
    sig = rng.normal(size=N) * 10.0 ** rng.integers(-2, 3) if chance(rng, 0.7) else np.full(N, float(rng.normal()))
    kind = pick(rng, ["signal", "table", "study"])
    c.note(N=N, sd=sd, seed=seed, kind=kind)
    if kind == "table":
        sig = sig[: N // 20 * 20].reshape(-1, 20)

    def draw(s):
        if kind != "study":
            return np.asarray(add_noise(sig, sd, seed=s))
        st = SpatioTemporalProblem()
        st.sensors, st.times = np.arange(float(N)).reshape(-1, 1), np.array([0.0])
        st.true_vals = sig.reshape(-1, 1)
        st.measurements_from_reference(std_dev=sd, seed=s)
        return np.asarray(st.measurements).reshape(sig.shape)

    a = draw(seed)
    c.check("shape kept", a.shape == sig.shape, a.shape, sig.shape)
    c.same("same seed, same noise", draw(seed), a)
    judge_long(c, ((a - sig) / sd).ravel(), kind)
    z = [((draw(seed + i) - sig) / sd).ravel() for i in range(1, max(3, int(2e5) // N))]
    judge_long(c, np.concatenate(z[:400]), f"{kind}, several draws")


@scenario("C23", "measurements", 64, 800, need=["noise is standard normal", "same seed, same noise", "zero noise", "early use refused"])
def c23_meas(c):
    rng = c.rng
    w = Study(rng)
    w.note(c)
    st = w.build(rng, measurements=False, true_vals=False, std=False)
    if chance(rng, 0.5):
        c.refused("early use refused", lambda: st.measurements_from_reference(), AttributeError)
        c.refused("early use refused", lambda: w.build(rng, measurements=False, std=False).measurements_from_reference(), AttributeError)
        c.refused("early use refused", lambda: w.build(rng, measurements=False, true_vals=False).measurements_from_reference(), AttributeError)
    else:
        c.refused("early use refused", lambda: st.measurements_from_reference(std_dev=0.1), AttributeError)
    sd = w.sd
    seed = 0 if chance(rng, 0.25) else int(rng.integers(1, 2**30))
    ref = pick(rng, [w.true, w.true.ravel(), w.true.reshape(-1, 1)])
    st.measurements_from_reference(ref.copy(), sd, seed=seed) if chance(rng, 0.5) else st.measurements_from_reference(ref=ref.copy(), std_dev=sd, seed=seed)
    a = st.measurements.copy()
    c.check("shape kept", a.shape == (w.S * w.T, 1), a.shape)
    c.same("reference stored", st.true_vals, w.true.reshape(-1, 1))
    c.check("level stored", st.std_dev == sd)
    st.measurements_from_reference(seed=seed)
    c.same("same seed, same noise", st.measurements, a)
    st.measurements_from_reference(seed=seed + 1)
    c.check("seeds differ", not np.array_equal(st.measurements, a))
    Z = []
    for i in range(500):
        st.measurements_from_reference(seed=seed + i)
        Z.append((st.measurements.ravel() - w.true.ravel()) / sd)
    judge_noise(c, np.array(Z), "measurements")
    np.random.seed(seed)
    st.measurements_from_reference()
    u = st.measurements.copy()
    np.random.seed(seed)
    st.measurements_from_reference()
    c.same("same global seed, same noise", st.measurements, u)
    np.random.seed(seed)
    Z = []
    for i in range(500):
        st.measurements_from_reference()
        Z.append((st.measurements.ravel() - w.true.ravel()) / sd)
    judge_noise(c, np.array(Z), "unseeded measurements")
    st.measurements_from_reference(std_dev=0)
    c.same("zero noise", st.measurements, w.true.reshape(-1, 1))
    c.same("reference stored", st.true_vals, w.true.reshape(-1, 1))


@scenario("C23", "equipment tolerance", 800, 20000, need=["probability within tolerance"])
def c23_tol(c):
    from mud.util import std_from_equipment
    from scipy.stats import norm

    rng = c.rng
    tol, pr = float(10.0 ** rng.uniform(-6, 4)), float(pick(rng, [rng.uniform(0.001, 0.999), 0.99, 0.95, 0.5, 1 - 10.0 ** rng.uniform(-9, -3)]))
    c.note(tol=tol, p=pr)
    s = float(std_from_equipment(tol, pr) if chance(rng, 0.5) else std_from_equipment(tolerance=tol, probability=pr))
    c.check("probability within tolerance", s > 0 and abs((1 - 2 * norm.sf(tol / s)) - pr) < 1e-9, s)
    s = float(std_from_equipment(tol))
    c.check("probability within tolerance", abs((1 - 2 * norm.sf(tol / s)) - 0.95) < 1e-9, "default", s)
    s = float(std_from_equipment(probability=pr))
    c.check("probability within tolerance", abs((1 - 2 * norm.sf(0.1 / s)) - pr) < 1e-9, "default", s)


# ------------------------------------------------------------------ C24
rule("C24", "Random subsets of fields under random names, loaded from a mapping, a pickle file and the constructor, with literals and renamings; stored fields are compared with what was supplied.")


@scenario("C24", "load", 1600, 30000, need=["present field stored", "absent field unset", "file = mapping", "renamed field", "literal value", "missing file", "returned content"])
def c24_load(c):
    rng = c.rng
    w = Study(rng)
    full = dict(lam=w.lam, data=w.data if chance(rng, 0.5) else w.data.reshape(w.n, -1), domain=w.domain, sensors=w.sensors, times=w.times,
                lam_ref=w.ref, std_dev=w.sd, true_vals=w.true, measurements=w.meas, sample_dist=pick(rng, ["u", "n"]))
    keys = ["lam", "data"] + [k for k in full if k not in ("lam", "data") and chance(rng, 0.65)]
    if chance(rng, 0.1):
        keys.remove("data")
    if chance(rng, 0.1):
        keys.remove("lam")
    if "data" in keys:
        one = ("sensors" in keys) != ("times" in keys)
        if one and not (w.S == 1 and "sensors" not in keys or w.T == 1 and "times" not in keys):
            keys = [k for k in keys if k not in ("sensors", "times")]
    if "domain" not in keys and "lam" not in keys and "lam_ref" in keys:
        keys.remove("lam_ref")
    if "data" not in keys and not {"sensors", "times"} <= set(keys):
        keys = [k for k in keys if k not in ("measurements", "true_vals")]
    if "domain" not in keys and "lam_ref" in keys:
        full["lam_ref"] = w.lam[0]
    content, kwargs = {}, {}
    for k in rng.permutation(keys):
        k = str(k)
        v = full[k]
        v = v.copy() if isinstance(v, np.ndarray) else v
        r = rng.random()
        if r < 0.2:
            name = pick(rng, ["alt_" + k, "x" + k, {"lam": "params", "data": "ux"}.get(k, k.upper())])
            spare = [f for f in [*full, "u", "n"] if f not in keys and f not in content and f not in kwargs]
            if chance(rng, 0.3) and spare:  # under a name that means something else
                name = pick(rng, spare)
                if name in full:
                    kwargs[name] = "nothing of the kind"
            content[name] = v
            kwargs[k] = name
            c.saw("renamed field")
        elif r < 0.35 and k != "sample_dist":
            kwargs[k] = v.tolist() if isinstance(v, np.ndarray) and chance(rng, 0.3) and k not in ("data", "sensors", "times") else v
            if chance(rng, 0.3):  # also in the content, under its own name: the literal wins
                content[k] = np.asarray(v) * 1.0 + 0.25
            c.saw("literal value")
        else:
            content[k] = v
            if chance(rng, 0.1):
                kwargs[k] = k
    content["unrelated"] = "text"
    if chance(rng, 0.3):
        content["note"] = [1, 2]
    absent = [k for k in full if k not in keys]
    for k in absent:
        if k not in kwargs and chance(rng, 0.15):
            kwargs[k] = "no such name"
            if chance(rng, 0.5):  # the field's own name is taken by something else
                content[k] = full[k] if not isinstance(full[k], np.ndarray) else full[k].copy()
                c.saw("renamed away")
    c.note(keys=sorted(keys), kwargs=sorted(kwargs), names=sorted(content), lam=w.lam)

    def judge(st, what):
        for k in full:
            got = getattr(st, k)
            if k in keys:
                v = full[k]
                if isinstance(v, np.ndarray):
                    c.check("present field stored", got is not None, what, k, "unset")
                    c.same("present field stored", np.ravel(got), np.ravel(v), f"{what} {k}")
                else:
                    c.check("present field stored", got == v, what, k, got, v)
            else:
                filled = (k == "domain" or k == "sample_dist") and "lam" in keys or k in ("sensors", "times") and "data" in keys
                if filled:
                    continue
                c.check("absent field unset", got is None, what, k, "is", got)

    st = STP()
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in content.items()}
    ret = st.load(content, **kwargs)
    judge(st, "mapping")
    c.check("returned content", set(ret) == set(keep) and all(np.array_equal(ret[k], keep[k]) for k in keep))
    d = c.scratch()
    fn = os.path.join(d, pick(rng, ["study.pkl", "data", "a b.pickle"]))
    with open(fn, "wb") as fp:
        pickle.dump(content, fp)
    s2 = STP()
    s2.load(fn, **kwargs)
    judge(s2, "file")
    for f in FIELDS:
        a, b = getattr(st, f), getattr(s2, f)
        c.check("file = mapping", (a is None) == (b is None) and (a is None or np.array_equal(a, b)), f, a, b)
    if not kwargs:
        judge(STP(content), "constructor, mapping")
        judge(STP(fn), "constructor, file")
    gone = os.path.join(d, "nothing here")
    e = c.refused("missing file", lambda: STP().load(gone), FileNotFoundError)
    c.check("missing file", "nothing here" in str(e), str(e))
    c.refused("missing file", lambda: STP(gone), FileNotFoundError)


@scenario("C24", "another study", 320, 6000, need=["replaced by the second study"])
def c24_again(c):
    """A study loaded into a problem that holds another one of the same size."""
    rng = c.rng
    w = Study(rng)
    full = dict(lam=w.lam, data=w.data, domain=w.domain, sensors=w.sensors, times=w.times, lam_ref=w.ref, std_dev=w.sd,
                true_vals=w.true, measurements=w.meas, sample_dist="u")
    two = dict(lam=w.lam[::-1].copy(), data=w.data * -0.5 + 1, domain=w.domain + np.ptp(w.domain, axis=1)[:, None] * [[-0.25, 0.5]],
               sensors=w.sensors + 7, times=w.times + 2.5, lam_ref=w.lam[-1].copy(), std_dev=w.sd * 3, true_vals=w.true + 1, measurements=w.meas - 2, sample_dist="n")
    drop = [k for k in ("true_vals", "lam_ref", "std_dev", "measurements", "sample_dist") if chance(rng, 0.2)]
    one = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in full.items() if k not in drop or chance(rng, 0.5)}
    two = {k: v for k, v in two.items() if k not in drop}
    kw = {}
    if chance(rng, 0.3):
        k = pick(rng, [k for k in two if k != "sample_dist"])
        kw[k] = two.pop(k)
    c.note(drop=drop, kw=sorted(kw), lam=w.lam)
    st = STP(one) if chance(rng, 0.5) else STP()
    if st.lam is None:
        st.load(one)
    st.load({k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in two.items()}, **kw)
    for k, v in {**two, **kw}.items():
        got = getattr(st, k)
        c.check("replaced by the second study", got is not None and np.array_equal(np.ravel(got), np.ravel(v)), k, "is", got, "loaded", v)


@scenario("C24", "repository data", 4, 8, need=["present field stored"])
def c24_repo(c):
    from . import core

    name = ["adcirc_data", "poisson_data"][c.idx % 2]
    fn = os.path.join(core.REPO, "tests", "data", name)
    with open(fn, "rb") as fp:
        raw = pickle.load(fp)
    c.note(name=name, i=c.idx)
    st = STP(fn)
    for k in raw:
        if hasattr(st, k) and k in FIELDS:
            c.same("present field stored", np.ravel(getattr(st, k)), np.ravel(raw[k]), k)
    if name == "poisson_data":
        st = STP()
        st.load(fn, data="u", lam="lam") if "data" not in raw and "u" in raw and np.size(raw["u"]) == len(raw["lam"]) * len(raw["sensors"]) else st.load(fn)
    c.saw("present field stored")


# ------------------------------------------------------------------ C25
rule("C25", "Random studies and selections, including ties and single samples; the distance of the returned sample is recomputed for every candidate.")


@scenario("C25", "closest", 2000, 40000, need=["closest to measurements", "closest to true values", "failed simulations", "refused without measurements", "refused without true values"])
def c25_closest(c):
    rng = c.rng
    w = Study(rng)
    if chance(rng, 0.4):  # the answer depends on the selection
        j = int(rng.integers(w.n))
        w.data[j] = w.meas + 1e-3 * pick(rng, [1, w.sd]) * rng.normal(size=w.meas.shape)
        w.data[(j + 1) % w.n] = w.true
    if chance(rng, 0.2):  # everything measured from a far origin
        off = pick(rng, [1, -1]) * 10.0 ** rng.uniform(2, 10) * (np.std(w.data) + 1e-3 * np.abs(w.data).max())
        if chance(rng, 0.5):
            off = off * rng.random((w.S, w.T))
        w.data, w.meas, w.true = w.data + off, w.meas + off, w.true + off
        c.saw("far origin")
    if chance(rng, 0.2):  # simulations that failed, wholly or in part
        for j in rng.permutation(w.n)[: int(rng.integers(1, w.n))]:
            w.data[j][rng.random((w.S, w.T)) < pick(rng, [1, 0.3])] = np.nan
        c.saw("failed simulations")
    st = w.build(rng)
    for _ in range(int(rng.integers(1, 4))):
        kw, si, ti, xi = masks(rng, w)
        w.note(c, masks={a: repr(b) for a, b in kw.items()})
        before = snap(st)
        got = np.asarray(st.get_closest_to_measurements(**kw))
        same_state(c, "study unchanged", st, before)
        D = [np.sqrt(sum((w.data[i, s, t] - w.meas[s, t]) ** 2 for s in xi for t in ti)) for i in si]
        D = [np.inf if np.isnan(v) else v for v in D]
        who = [i for i in range(len(si)) if np.array_equal(w.lam[si[i]], got)]
        c.check("closest to measurements", got.shape == (w.p,) and who, "returned", got)
        c.check("closest to measurements", min(D[i] for i in who) <= min(D) * (1 + 1e-9) + 1e-14 * (np.nanmax(np.abs(w.data), initial=0) + np.abs(w.meas).max()) * np.sqrt(w.S * w.T), "distance", [D[i] for i in who], "least", min(D))
    eps = 1e-14 * (np.nanmax(np.abs(w.data), initial=0) + np.abs(w.true).max()) * np.sqrt(w.S * w.T)
    got = np.asarray(st.get_closest_to_true_vals())
    D = [np.sqrt(((w.data[i] - w.true) ** 2).sum()) for i in range(w.n)]
    D = [np.inf if np.isnan(v) else v for v in D]
    who = [i for i in range(w.n) if np.array_equal(w.lam[i], got)]
    c.check("closest to true values", got.shape == (w.p,) and who, "returned", got)
    c.check("closest to true values", min(D[i] for i in who) <= min(D) * (1 + 1e-9) + eps, [D[i] for i in who], min(D))
    E = (AttributeError, ValueError, TypeError)
    c.refused("refused without measurements", lambda: w.build(rng, measurements=False).get_closest_to_measurements(), E)
    c.refused("refused without true values", lambda: w.build(rng, true_vals=False).get_closest_to_true_vals(), E)


@scenario("C25", "larger studies, close candidates", 60, 800, need=["closest to measurements", "closest to true values"])
def c25_large(c):
    """Candidates that differ in the last digits, in studies of up to a few hundred thousand values."""
    rng = c.rng
    n, S, T = int(rng.integers(20, 400)), int(rng.integers(1, 40)), int(rng.integers(1, 40))
    if chance(rng, 0.4):  # many samples of fewer values
        n, S, T = int(10.0 ** rng.uniform(2.7, 3.8)), int(rng.integers(1, 7)), int(rng.integers(1, 7))
    w = Study(rng, n=n, S=S, T=T)
    scale = 10.0 ** rng.uniform(-3, 6)
    level = 10.0 ** rng.uniform(-9, -1)
    w.meas = rng.integers(1, 1000, (S, T)) * 1.0 * scale
    w.true = w.meas * (1 + 1e-3 * rng.normal(size=(S, T))) if chance(rng, 0.5) else w.meas[::-1].copy()
    near = w.true if chance(rng, 0.5) else w.meas
    w.data = near * (1 + level * rng.uniform(0.2, 1, (n, 1, 1)) * rng.choice([-1, 1], (n, S, T)))
    c.note(n=n, S=S, T=T, level=level)
    st = w.build(rng)
    eps = 1e-14 * np.abs(w.data).max() * np.sqrt(S * T)
    for label, got, goal in (("closest to measurements", st.get_closest_to_measurements(), w.meas), ("closest to true values", st.get_closest_to_true_vals(), w.true)):
        D = np.sqrt(((w.data - goal) ** 2).sum(axis=(1, 2)))
        who = [i for i in range(n) if np.array_equal(w.lam[i], got)]
        c.check(label, np.shape(got) == (w.p,) and who, "returned", got)
        c.check(label, min(D[i] for i in who) <= D.min() * (1 + 1e-9) + eps, [D[i] for i in who], D.min())
