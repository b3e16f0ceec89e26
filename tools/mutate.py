"""mutate.py OUT.json [file...]: systematic small edits of src/mud, each run
against the scenarios of all properties in one process (fast pre-screen of the
quick checks).  Survivors are then triaged by hand: equivalent, unspecified, or
a gap to close.  A development tool; no check uses it."""
import ast
import copy
import json
import os
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
BASE = "/repo/src/mud"
FILES = ["base", "funs", "norm", "plot", "preprocessing", "util"]

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult],
       ast.MatMult: [], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def variants(node):
    """Yield (kind, replacement-node-factory)."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for alt in CMP.get(type(op), []):
                def f(n, i=i, alt=alt):
                    n.ops[i] = alt()
                    return n
                yield f"{type(op).__name__}->{alt.__name__}", f
    if isinstance(node, ast.BinOp):
        for alt in BIN.get(type(node.op), []):
            def f(n, alt=alt):
                n.op = alt()
                return n
            yield f"{type(node.op).__name__}->{alt.__name__}", f
        yield "left only", lambda n: n.left
        if not isinstance(node.op, ast.Mod):
            yield "right only", lambda n: n.right
    if isinstance(node, ast.AugAssign):
        for alt in BIN.get(type(node.op), []):
            def f(n, alt=alt):
                n.op = alt()
                return n
            yield f"aug {type(node.op).__name__}->{alt.__name__}", f
    if isinstance(node, ast.BoolOp):
        def f(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n
        yield "and/or", f
        for i in range(len(node.values)):
            yield f"boolop operand {i} dropped", lambda n, i=i: (n.values.pop(i), n if len(n.values) > 1 else n.values[0])[1]
    if isinstance(node, ast.UnaryOp):
        yield f"{type(node.op).__name__} removed", lambda n: n.operand
    if isinstance(node, ast.Constant):
        v = node.value
        if v is True or v is False:
            yield f"{v} flipped", lambda n: ast.Constant(not v)
        elif isinstance(v, int):
            yield f"{v}->{v+1}", lambda n: ast.Constant(v + 1)
            if v:
                yield f"{v}->{v-1}", lambda n: ast.Constant(v - 1)
        elif isinstance(v, float):
            yield f"{v}->2x", lambda n: ast.Constant(v * 2 if v else 0.1)
        elif v is None:
            pass
    if isinstance(node, (ast.If, ast.IfExp)):
        yield "if True", lambda n: (setattr(n, "test", ast.Constant(True)), n)[1]
        yield "if False", lambda n: (setattr(n, "test", ast.Constant(False)), n)[1]
    if isinstance(node, ast.Call):
        for i, k in enumerate(node.keywords):
            yield f"kw {k.arg or '**'} dropped", lambda n, i=i: (n.keywords.pop(i), n)[1]
        if len(node.args) >= 2:
            yield "args 0,1 swapped", lambda n: (n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]]), n)[1]
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "reshape", "ravel", "flatten", "transpose", "astype", "squeeze"):
            yield f".{node.func.attr}() removed", lambda n: n.func.value
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == "np" and len(node.args) >= 1:
            yield f"np.{node.func.attr} -> arg", lambda n: n.args[0]
    if isinstance(node, ast.Attribute) and node.attr == "T":
        yield ".T removed", lambda n: n.value
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        for fld in ("lower", "upper", "step"):
            if getattr(node.slice, fld) is not None:
                yield f"slice {fld} dropped", lambda n, fld=fld: (setattr(n.slice, fld, None), n)[1]
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not (
        isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)
    ):
        yield "statement deleted", lambda n: ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None:
        yield "return None", lambda n: ast.Return(None)
    if isinstance(node, (ast.Continue,)):
        yield "continue->pass", lambda n: ast.Pass()
    if isinstance(node, (ast.Break,)):
        yield "break->pass", lambda n: ast.Pass()


class _Repl(ast.NodeTransformer):
    def __init__(self, target, f):
        self.t, self.f, self.i = target, f, -1

    def visit(self, node):
        self.i += 1
        if self.i == self.t:
            return self.f(node)
        return self.generic_visit(node)


def order(tree):
    out = []

    class V(ast.NodeTransformer):
        def visit(self, node):
            out.append(node)
            return self.generic_visit(node)

    V().visit(tree)
    return out


def mutants(name):
    src = open(f"{BASE}/{name}.py").read()
    tree = ast.parse(src)
    nodes = order(copy.deepcopy(tree))
    ref = ast.unparse(tree)
    seen = {ref}
    line = 0
    skip = set()
    for n in nodes:  # docstrings, module-level imports, annotations
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                skip.add(id(b[0])), skip.add(id(b[0].value))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip.update(id(x) for x in ast.walk(a.annotation))
            if n.returns:
                skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
    for i, n in enumerate(nodes):
        line = getattr(n, "lineno", line)
        if id(n) in skip or isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
            continue
        for kind, f in list(variants(n)):
            t = copy.deepcopy(tree)
            try:
                t = _Repl(i, f).visit(t)
                out = ast.unparse(ast.fix_missing_locations(t))
                compile(out, name, "exec")
            except Exception:
                continue
            if out in seen:
                continue
            seen.add(out)
            yield {"file": name, "line": line, "kind": kind, "was": ast.unparse(n).split("\n")[0][:120]}, out


def enclosing(tree):
    """line -> name of the innermost function around it"""
    out = {}

    def walk(n, name):
        for ch in ast.iter_child_nodes(n):
            nm = f"{name}.{ch.name}" if isinstance(ch, (ast.FunctionDef, ast.ClassDef)) else name
            if isinstance(ch, ast.FunctionDef):
                for ln in range(ch.lineno, ch.end_lineno + 1):
                    out[ln] = nm
            walk(ch, nm)

    walk(tree, "")
    return out


def reach(path, ncases=8):
    """Which functions of src/mud does each scenario execute?  -> {prop/name: [file:function]}"""
    from mudmon import core
    work = core.boot()
    from mudmon import scenarios  # noqa
    core.KNOWN[:] = core.load_known()
    enc = {f: enclosing(ast.parse(open(f"{BASE}/{f}.py").read())) for f in FILES}
    mon = sys.monitoring
    hit = set()

    def on_line(code, line):
        if "/src/mud/" in code.co_filename:
            f = os.path.basename(code.co_filename)[:-3]
            if f in enc and line in enc[f]:
                hit.add(f"{f}:{enc[f][line]}")
        return mon.DISABLE

    mon.use_tool_id(3, "reach")
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)
    out = {}
    for prop in sorted(core.SCENARIOS):
        for s in core.SCENARIOS[prop]:
            hit.clear()
            for idx in range(min(ncases, s.quick)):
                mon.restart_events()
                core.run_case(s, idx, 1, "quick")
            out[f"{prop}/{s.name}"] = sorted(hit)
    json.dump(out, open(path, "w"))
    shutil.rmtree(work, ignore_errors=True)


def child(meta, text, rounds, seed, only, cov, fn):
    d = f"/dev/shm/mut_{os.getpid()}"
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    for x in os.listdir("/repo"):
        if x not in ("src", ".git"):
            os.symlink(f"/repo/{x}", f"{d}/{x}")
    with open(f"{d}/src/mud/{meta['file']}.py", "w") as fp:
        fp.write(text)
    res = {"status": "survived"}
    t0 = time.time()
    try:
        from mudmon import core
        core.REPO, core.SRC = d, d + "/src"
        work = core.boot()
        try:
            from mudmon import scenarios  # noqa
        except Exception as e:
            return {"status": "killed", "by": "import", "what": str(e)}
        core.KNOWN[:] = core.load_known()
        lo = 0
        for hi in rounds:
            for prop in sorted(core.SCENARIOS):
                if prop in ("C36", "C37", "C38", "C41") or (only and prop not in only):
                    continue
                for s in core.SCENARIOS[prop]:
                    if fn and fn not in cov.get(f"{prop}/{s.name}", ()):
                        continue
                    for idx in range(lo, min(hi, s.quick)):
                        r = core.run_case(s, idx, seed, "quick", limit=60)
                        if r.get("timeout") or r["violation"]:
                            v = r["violation"] or {"label": "timeout", "what": ""}
                            return {"status": "killed", "by": f"{prop}/{s.name}[{idx}]", "what": f"{v['label']}: {v['what']}"[:200],
                                    "t": round(time.time() - t0, 1)}
            lo = hi
        res["t"] = round(time.time() - t0, 1)
        return res
    except BaseException as e:
        return {"status": "killed", "by": "crash", "what": f"{type(e).__name__}: {e}"[:200]}
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
        try:
            shutil.rmtree(work, ignore_errors=True)
        except NameError:
            pass


def main():
    import resource
    out = sys.argv[1]
    names = sys.argv[2:] or FILES
    rounds = [int(x) for x in os.environ.get("MUT_ROUNDS", "3,40").split(",")]
    jobs = int(os.environ.get("MUT_JOBS", 8))
    only = os.environ.get("MUT_PROPS", "").split(",") if os.environ.get("MUT_PROPS") else None
    redo = None
    if os.environ.get("MUT_REDO"):  # survivors of an earlier run
        redo = {(m["file"], m["line"], m["kind"], m["was"]) for m in json.load(open(os.environ["MUT_REDO"])) if m["status"] == "survived"}
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib.pyplot, numpy, pandas, scipy.optimize, scipy.stats, sklearn.decomposition, prettytable, click  # noqa
    todo = [({"file": "norm", "line": 0, "kind": "control", "was": ""}, open(f"{BASE}/norm.py").read())]
    todo += [m for nm in names for m in mutants(nm)]
    if os.environ.get("MUT_FROM"):  # file:line
        f, ln = os.environ["MUT_FROM"].split(":")
        todo = [x for x in todo if x[0]["file"] != f or x[0]["line"] >= int(ln)]
    if redo is not None:
        todo = [m for m in todo if any((m[0]["file"], m[0]["line"] - s, m[0]["kind"], m[0]["was"]) in redo for s in (-2, 0, 2))]
    print(len(todo), "mutants", flush=True)
    if not os.path.exists("/tmp/mut/reach.json"):
        pid = os.fork()
        if pid == 0:
            reach("/tmp/mut/reach.json")
            os._exit(0)
        os.waitpid(pid, 0)
    cov = {k: set(v) for k, v in json.load(open("/tmp/mut/reach.json")).items()}
    enc = {f: enclosing(ast.parse(open(f"{BASE}/{f}.py").read())) for f in FILES}
    results, running = [], {}
    i = 0
    while i < len(todo) or running:
        while i < len(todo) and len(running) < jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                dn = os.open("/dev/null", os.O_WRONLY)
                os.dup2(dn, 1), os.dup2(dn, 2)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                m = todo[i][0]
                fn = enc[m["file"]].get(m["line"])
                v = child(*todo[i], rounds, 1, only, cov, f"{m['file']}:{fn}" if fn else None)
                os.write(w, json.dumps(v).encode())
                os._exit(0)
            os.close(w)
            running[pid] = (i, r)
            i += 1
        pid, _ = os.wait()
        if pid not in running:
            continue
        j, r = running.pop(pid)
        raw = os.read(r, 65536)
        os.close(r)
        shutil.rmtree(f"/dev/shm/mut_{pid}", ignore_errors=True)
        v = json.loads(raw) if raw else {"status": "killed", "by": "died", "what": ""}
        results.append({**todo[j][0], **v, "n": j})
        if len(results) % 50 == 0:
            print(len(results), sum(x["status"] == "survived" for x in results), flush=True)
        json.dump(sorted(results, key=lambda x: x["n"]), open(out, "w"), indent=0)
    print("done", len(results), "survived", sum(x["status"] == "survived" for x in results))


main()
