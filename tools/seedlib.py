"""Write /verif/seeded/<id>/ from specs, and validate each planted bug in a scratch copy.

usage: seedlib.py SPECFILE [ids...]      write + validate (clean demo, patched demo, tests)
       seedlib.py --run [ids...]         run the property's check against each planted bug
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = "/verif/seeded"
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
export MPLBACKEND=Agg PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def copy_repo():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    sh(f"cp -a /repo {d}/r")
    return d, f"{d}/r"


def tests(repo):
    """the 50 stable tests in a scratch copy"""
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, PYTHONPATH=f"{repo}/src", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    rc, out = sh(f"{PY} -m pytest -q -p no:cacheprovider --no-cov --timeout=300 --randomly-seed=0 "
                 f"--randomly-dont-reorganize --junitxml={repo}/../j.xml 2>&1 | tail -15", cwd=repo, env=env)
    import xml.etree.ElementTree as ET
    bad = {f"{t.get('classname')}::{t.get('name')}" for t in ET.parse(f"{repo}/../j.xml").iter("testcase")
           if any(k.tag in ("failure", "error") for k in t)}
    bad &= set(base["stable"])
    out = ("FAILED stable: %s\n" % sorted(bad) if bad else "stable ok\n") + out
    return out


def write(spec):
    sid = spec["id"]
    d, repo = copy_repo()
    try:
        for f, old, new in spec["edits"]:
            p = f"{repo}/src/mud/{f}.py"
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return sid, f"BAD EDIT ({n} matches): {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", cwd=repo)
        out = f"{SEEDED}/{sid}"
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/demo.py", "w").write(spec["demo"].lstrip())
        json.dump({"property": spec["property"], "needs": spec["needs"],
                   "what_it_breaks": spec["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        rc1, o1 = sh(f"{out}/demo.sh", cwd="/repo")
        rc2, o2 = sh(f"{out}/demo.sh", cwd=repo)
        t = tests(repo)
        # a planted bug must change lines of the original repository
        rc, base = sh("git -C /repo log --format=%h --grep=^base$")
        msg = []
        if rc1: msg.append("CLEAN DEMO FAILS:\n" + o1[-1500:])
        if not rc2: msg.append("PATCHED DEMO PASSES")
        if t.startswith("FAILED"): msg.append("TESTS: " + t.splitlines()[0])
        return sid, ("; ".join(msg) or "ok: " + o2.strip().splitlines()[-1][:100] + " | " + t.splitlines()[0])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(sid, props=None):
    meta = json.load(open(f"{SEEDED}/{sid}/meta.json"))
    d, repo = copy_repo()
    try:
        rc, o = sh(f"git apply {SEEDED}/{sid}/patch.diff", cwd=repo)
        if rc: return sid, "APPLY " + o
        res = []
        for pid in props or [meta["property"]]:
            env = dict(os.environ, MUDMON_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            rc, o = sh(f"./check.sh {pid} --tier quick", cwd="/verif", env=env)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res.append(f"{pid}: rc={rc} {'CAUGHT' if rc == 1 and v else 'MISSED' if rc == 0 else 'ERROR ' + o[-400:]}")
        return sid, " ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--run":
        ids = a[1:] or sorted(os.listdir(SEEDED))
        for i in ids:
            print(*run(i), flush=True)
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        specs = [s for s in ns["SPECS"] if not a[1:] or s["id"] in a[1:]]
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(write, specs):
                print(*r, flush=True)
