"""Harness: runs property scenarios against the code in /repo and records what
the monitors observed.

A scenario is a function ``f(c)`` that drives the real code with one generated
workload; ``c`` (a Case) offers randomness, observation checks and counters.
Every case is determined by (VERIF_SEED, property, scenario, index)."""
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("MUDMON_REPO", "/repo")
SRC = os.path.join(REPO, "src")

KNOWN = []  # unrepaired findings
SCENARIOS = {}  # property -> list of Scenario
RULES = {}  # property -> text for evidence


class Violated(Exception):
    def __init__(self, label, msg):
        super().__init__(f"{label}: {msg}")
        self.label, self.msg = label, msg


class Inconclusive(Exception):
    """The harness could not judge this run (environment trouble)."""


class Scenario:
    def __init__(self, prop, name, fn, quick, thorough, need):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough = quick, thorough
        self.need = need


def scenario(prop, name, quick, thorough=None, need=()):
    """Register.  `need`: labels that must have been observed over the run."""

    def deco(fn):
        SCENARIOS.setdefault(prop, []).append(
            Scenario(prop, name, fn, quick, thorough or quick * 20, tuple(need))
        )
        return fn

    return deco


def rule(prop, text):
    RULES[prop] = text


def short(v, n=400):
    import numpy as np

    with np.printoptions(precision=8, threshold=12, edgeitems=3):
        s = repr(v)
    return s if len(s) <= n else s[: n - 20] + f"...[{len(s)} chars]"


def digest(*vals):
    import numpy as np

    h = hashlib.blake2b(digest_size=10)

    def add(v):
        if isinstance(v, np.ndarray):
            h.update(str((v.dtype.str, v.shape)).encode())
            h.update(np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v).encode())
        elif isinstance(v, dict):
            for k in v:
                add(str(k)), add(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(f"{type(v).__name__}{len(v)}".encode())
            for x in v:
                add(x)
        else:
            h.update(repr(v).encode())

    for v in vals:
        add(v)
    return h.hexdigest()


class Case:
    def __init__(self, scen, idx, seed, tier):
        import numpy as np

        self.scen, self.idx, self.seed, self.tier = scen, idx, seed, tier
        self.thorough = tier == "thorough"
        key = [seed, zlib.crc32(scen.prop.encode()), zlib.crc32(scen.name.encode()), idx]
        self.rng = np.random.Generator(np.random.PCG64(key))
        np.random.seed(int(self.rng.integers(2**31)))
        self.counts = {}
        self.inputs = {}
        self.key = None
        self.tmpdirs = []

    # -- observations -----------------------------------------------------
    def saw(self, label, n=1):
        """Record that an event was observed by a monitor."""
        self.counts[label] = self.counts.get(label, 0) + int(n)

    def check(self, label, ok, *msg):
        """One judged observation."""
        self.saw(label)
        import numpy as np

        if isinstance(ok, np.ndarray):
            ok = bool(ok.all())
        if not ok:
            raise Violated(label, " ".join(m if isinstance(m, str) else short(m) for m in msg))

    def close(self, label, got, want, rtol=1e-8, atol=0.0, msg=""):
        """Numeric agreement, relative to the size of the expected values."""
        import numpy as np

        self.saw(label)
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violated(label, f"{msg} shape {g.shape} instead of {w.shape}: got {short(g)}, expected {short(w)}")
        if w.size == 0:
            return
        try:
            if g.dtype.kind == "c" or w.dtype.kind == "c":
                g, w = g.astype(complex), w.astype(complex)
            else:
                g, w = g.astype(float), w.astype(float)
        except (TypeError, ValueError):
            raise Violated(label, f"{msg} not numeric: {short(got)}")
        fin = np.isfinite(w)
        if not np.array_equal(g[~fin], w[~fin], equal_nan=True):
            raise Violated(label, f"{msg} got {short(g)}, expected {short(w)}")
        if not fin.any():
            return
        scale = np.max(np.abs(w[fin]))
        atol = max(atol, 1e-290)  # numbers without full precision
        err = np.max(np.abs(g[fin] - w[fin]))
        if not err <= rtol * scale + atol:
            raise Violated(
                label, f"{msg} got {short(g)}, expected {short(w)} (max deviation {err:.3g}, allowed {rtol * scale + atol:.3g})"
            )

    def same(self, label, got, want, msg=""):
        import numpy as np

        self.saw(label)
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            try:
                ok = np.array_equal(g, w, equal_nan=True)
            except TypeError:
                ok = np.array_equal(g, w)
        if not ok:
            raise Violated(label, f"{msg} got {short(g)}, expected {short(w)}")

    def reused(self, label, fn, first, second, rtol=1e-10):
        """fn depends on what the arrays hold, not on which arrays they are: called again
        with the same arrays after they were overwritten, it answers as for fresh ones."""
        import numpy as np

        arrs = [np.array(a) for a in first]
        fn(*arrs)
        for a, b in zip(arrs, second):
            a[...] = b
        got, want = fn(*arrs), fn(*[np.array(b) for b in second])
        if not isinstance(want, (tuple, list)):
            got, want = [got], [want]
        for g, w in zip(got, want):
            self.close(label, g, w, rtol=rtol)

    def refused(self, label, fn, exc=Exception, msg=""):
        """The call must raise (one of) exc."""
        self.saw(label)
        try:
            r = fn()
        except exc as e:
            return e
        except (Violated, Inconclusive, MemoryError):
            raise
        except Exception as e:
            raise Violated(label, f"{msg}: expected {getattr(exc, '__name__', exc)}, got {type(e).__name__}: {e}")
        raise Violated(label, f"{msg}: accepted, returned {short(r)}")

    def defect(self, label, ok, *msg):
        """Like check, for a deviation with the exact signature of one defect:
        when known_findings.txt lists it the run goes on (-> False)."""
        if ok:
            self.saw(label)
            return True
        what = " ".join(m if isinstance(m, str) else short(m) for m in msg)
        key = f"{self.scen.name}/{label}".replace(" ", "_")
        if any(k[0] == self.scen.prop and k[1] == key and k[2] in what.replace(" ", "_") for k in KNOWN):
            self.saw("KNOWN " + key)
            return False
        raise Violated(label, what)

    def note(self, **kw):
        """Inputs of the case, for the replay file, evidence and distinctness."""
        self.inputs.update(kw)

    def scratch(self):
        d = tempfile.mkdtemp(prefix="mudmon_case_")
        self.tmpdirs.append(d)
        return d

    def close_dirs(self):
        for d in self.tmpdirs:
            shutil.rmtree(d, ignore_errors=True)


# -------------------------------------------------------------------------
def boot():
    """Import mud from /repo's working tree, quietly, in a scratch directory."""
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    work = tempfile.mkdtemp(prefix="mudmon_")
    os.environ.setdefault("MPLCONFIGDIR", work)
    os.chdir(work)
    sys.path.insert(0, SRC)
    import logging
    import warnings

    logging.disable(logging.WARNING)
    warnings.simplefilter("ignore")
    import mud  # noqa
    import mud.base, mud.funs, mud.norm, mud.plot, mud.preprocessing, mud.util  # noqa

    where = os.path.realpath(mud.base.__file__)
    if not where.startswith(os.path.realpath(SRC) + os.sep):
        raise Inconclusive(f"mud was imported from {where}, not from {SRC}")
    return work


class _Timeout(BaseException):
    pass


def run_case(scen, idx, seed, tier, limit=150):
    """-> dict(counts, inputs, key, violation|None)"""
    import numpy as np
    from matplotlib import pyplot as plt

    c = Case(scen, idx, seed, tier)
    out = {"scenario": scen.name, "idx": idx, "violation": None}

    def on_alarm(*_):
        raise _Timeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    cwd = os.getcwd()
    np.seterr(all="ignore")
    try:
        scen.fn(c)
    except Violated as e:
        out["violation"] = {"label": e.label, "what": e.msg}
    except _Timeout:
        out["timeout"] = True
    except (Inconclusive, MemoryError) as e:
        out["trouble"] = f"{type(e).__name__}: {e}"
    except OSError as e:
        if isinstance(e, FileNotFoundError) or "mud" in "".join(traceback.format_tb(e.__traceback__)):
            out["violation"] = {
                "label": "unexpected error",
                "what": f"{type(e).__name__}: {e}",
                "traceback": traceback.format_exc()[-3000:],
            }
        else:
            out["trouble"] = f"{type(e).__name__}: {e}"
    except (Exception, SystemExit) as e:
        out["violation"] = {
            "label": "unexpected error",
            "what": f"{type(e).__name__}: {e}",
            "traceback": traceback.format_exc()[-3000:],
        }
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        plt.close("all")
        c.close_dirs()
    out["counts"] = c.counts
    out["key"] = digest(scen.name, c.inputs if c.key is None else c.key)
    out["trivial"] = not c.inputs and c.key is None
    out["inputs"] = {k: short(v, 160) for k, v in c.inputs.items()}
    return out


MAX_VIOLATIONS = int(os.environ.get("MUDMON_MAX", 4))


def _worker(prop, part, parts, seed, tier, deadline, w):
    agg = {
        "n": {}, "counts": {}, "keys": set(), "viol": [], "trouble": [], "timeouts": [],
        "samples": {}, "wall": {}, "stopped": [],
    }
    for s in SCENARIOS[prop]:
        total = s.quick if tier == "quick" else s.thorough
        t0 = time.time()
        for idx in range(part, total, parts):
            if time.time() > deadline:
                agg["stopped"].append(s.name)
                break
            r = run_case(s, idx, seed, tier)
            agg["n"][s.name] = agg["n"].get(s.name, 0) + 1
            cs = agg["counts"].setdefault(s.name, {})
            for k, v in r["counts"].items():
                cs[k] = cs.get(k, 0) + v
            if not r["trivial"]:
                agg["keys"].add(r["key"])
            if len(agg["samples"].setdefault(s.name, [])) < 2 and r["inputs"]:
                agg["samples"][s.name].append({"case": idx, **r["inputs"]})
            if r.get("trouble"):
                agg["trouble"].append(f"{s.name}[{idx}] {r['trouble']}")
                if len(agg["trouble"]) > 3:
                    break
            if r.get("timeout"):
                agg["timeouts"].append((s.name, idx))
                break
            if r["violation"]:
                agg["viol"].append(r)
                if len(agg["viol"]) >= MAX_VIOLATIONS:
                    break
        agg["wall"][s.name] = agg["wall"].get(s.name, 0.0) + time.time() - t0
        if len(agg["viol"]) >= MAX_VIOLATIONS:
            break
    import pickle

    with os.fdopen(w, "wb") as fp:
        pickle.dump(agg, fp)


def explore(prop, seed, tier, jobs, budget):
    import pickle

    deadline = time.time() + budget
    procs = []
    sys.stdout.flush()
    for part in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                for rr, _ in procs:
                    os.close(rr)
                _worker(prop, part, jobs, seed, tier, deadline, w)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(w)
        procs.append((r, pid))
    aggs, dead = [], []
    for r, pid in procs:
        with os.fdopen(r, "rb") as fp:
            raw = fp.read()
        _, st = os.waitpid(pid, 0)
        if st or not raw:
            dead.append(st)
        else:
            aggs.append(pickle.loads(raw))
    return aggs, dead


# -------------------------------------------------------------------------
def load_known():
    """Known (unrepaired) findings: lines `finding: property=<id> key=<scenario/label> [match=<text>] <what>`"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                f = dict(t.split("=", 1) for t in line.split()[1:] if "=" in t)
                out.append((f["property"], f["key"], f.get("match", ""), line.split(":", 1)[1].strip()))
    return out


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--scenario")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    t0 = time.time()
    try:
        work = boot()
    except Inconclusive as e:
        print(f"check cannot run: {e}", file=sys.stderr)
        return 2
    except Exception as e:
        traceback.print_exc()
        print(f"check cannot run: importing mud failed: {e}", file=sys.stderr)
        return 2
    try:
        return _main(a, tier, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)


def _main(a, tier, t0):
    from . import scenarios  # noqa: F401  registers everything

    prop = a.prop
    if prop not in SCENARIOS:
        print(f"no scenarios for {prop}", file=sys.stderr)
        return 2
    KNOWN[:] = load_known()
    if a.replay:
        rp = json.load(open(a.replay))
        s = next(s for s in SCENARIOS[prop] if s.name == rp["scenario"])
        r = run_case(s, rp["index"], rp["seed"], rp["tier"])
        print(json.dumps({k: r[k] for k in ("scenario", "idx", "violation", "inputs", "counts")}, indent=1, default=str))
        return 1 if r["violation"] else 0
    if a.scenario:
        SCENARIOS[prop] = [s for s in SCENARIOS[prop] if s.name == a.scenario]
    if a.scale != 1.0:
        for s in SCENARIOS[prop]:
            s.quick = max(1, int(s.quick * a.scale))
            s.thorough = max(1, int(s.thorough * a.scale))
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    budget = 420 if tier == "quick" else 3600
    aggs, dead = explore(prop, a.seed, tier, jobs, budget)

    n, counts, keys, viol, samples, wall = {}, {}, set(), [], [], {}
    trouble, timeouts, stopped = [], [], set()
    per_s = {}
    for g in aggs:
        for k, v in g["n"].items():
            n[k] = n.get(k, 0) + v
        for s, cs in g["counts"].items():
            d = counts.setdefault(s, {})
            for k, v in cs.items():
                d[k] = d.get(k, 0) + v
        keys |= g["keys"]
        viol += g["viol"]
        trouble += g["trouble"]
        timeouts += g["timeouts"]
        stopped |= set(g["stopped"])
        for s, sm in g["samples"].items():
            per_s.setdefault(s, []).extend(sm)
        for s, v in g["wall"].items():
            wall[s] = wall.get(s, 0) + v
    for s, sm in per_s.items():
        for x in sorted(sm, key=lambda x: x["case"])[:3]:
            samples.append({"scenario": s, **x})
    for name, idx in timeouts[:1] if not viol else []:  # once more, alone
        s = next(s for s in SCENARIOS[prop] if s.name == name)
        r = run_case(s, idx, a.seed, tier)
        if r.get("timeout"):
            r["violation"] = {"label": "does not finish", "what": "no answer within 150 s, twice"}
        if r["violation"]:
            viol.append(r)
        timeouts = timeouts[1:]
    viol.sort(key=lambda r: ([s.name for s in SCENARIOS[prop]].index(r["scenario"]), r["idx"]))

    known = [k for k in KNOWN if k[0] == prop]
    hit = {k[len("KNOWN "):]: v for cs in counts.values() for k, v in cs.items() if k.startswith("KNOWN ")}
    fresh = viol

    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    missing = [
        f"{s.name}: {lab}"
        for s in SCENARIOS[prop]
        for lab in s.need
        if not counts.get(s.name, {}).get(lab)
    ]
    notrun = [s.name for s in SCENARIOS[prop] if not n.get(s.name)]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(n.values()),
            "distinct_nontrivial": len(keys),
            "rule": RULES.get(prop, "")
            + " A case is non-trivial when it drove the real code with generated inputs; cases with equal inputs count once.",
            "samples": samples[:14],
            "executions_per_scenario": n,
            "observations_judged": {s: dict(sorted(d.items())) for s, d in counts.items()},
            "observations_total": sum(sum(d.values()) for d in counts.values()),
            "scenarios_cut_by_time": sorted(stopped),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": [
            {"scenario": r["scenario"], "index": r["idx"], **{k: short(str(v), 600) for k, v in r["violation"].items()}}
            for r in fresh[:5]
        ],
        "known_findings_hit": hit,
        "assumptions": [
            "numpy, scipy, scikit-learn and matplotlib are trusted",
            "the monitors judge only the executions made in this run",
        ],
    }
    path = os.path.join(ev_dir, f"{prop}.json")
    with open(path, "w") as fp:
        json.dump(evidence, fp, indent=1, default=str)

    for k in known:
        print(f"KNOWN-FINDING: {k[3]}" + ("" if k[1] in hit else " (listed; not met in this run)"))
    if fresh:
        rdir = os.path.join(ev_dir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for r in fresh[: int(os.environ.get("MUDMON_MAX", 5))]:
            rp = os.path.join(rdir, f"{prop}-{r['scenario']}-{r['idx']}.json".replace(' ', '_'))
            with open(rp, "w") as fp:
                json.dump(
                    {"property": prop, "scenario": r["scenario"], "index": r["idx"], "seed": a.seed, "tier": tier,
                     "violation": r["violation"], "inputs": r["inputs"]}, fp, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  {r['scenario']}[{r['idx']}] {r['violation']['label']}: {short(r['violation']['what'], 700)}")
            if os.environ.get("MUDMON_TB") and r["violation"].get("traceback"):
                print(r["violation"]["traceback"])
        return 1
    if trouble or dead or timeouts or missing or notrun:
        print(f"inconclusive: trouble={trouble[:3]} dead={dead} timeouts={timeouts} missing={missing} notrun={notrun}", file=sys.stderr)
        return 2
    print(
        f"{prop} held: {sum(n.values())} executions, {evidence['coverage']['observations_total']} observations judged, "
        f"{len(keys)} distinct, {evidence['wall_s']} s"
    )
    return 0
