"""DESIGN.md from design_head.md, the registered scenarios and the planted-bug results."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import re
T = {}
ns = {}
src = "\n".join(open(f"{ROOT}/mudmon/{f}").read() for f in sorted(os.listdir(f"{ROOT}/mudmon")) if f.startswith("s_") and f.endswith(".py"))
rules = dict(re.findall(r'^rule\("(C\d+)", "(.*)"\)$', src, re.M))
scen = re.findall(r'^@scenario\("(C\d+)", "([^"]+)", (\d+)(?:, (\d+))?(?:, need=\[(.*?)\])?\)', src, re.M)
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
res = json.load(open(f"{ROOT}/tools/seed_results.json")) if os.path.exists(f"{ROOT}/tools/seed_results.json") else {}
exec(open(f"{ROOT}/tools/design_why.py").read(), ns)
out = [open(f"{ROOT}/tools/design_head.md").read(), "## Properties\n"]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Monitor and workload.* {rules.get(i, '')}\n")
    out.append(f"*Oracle, bounds.* {ns['WHY'].get(i, '')}\n")
    ss = [(n, q, t or int(q) * 20) for (c, n, q, t, _) in scen if c == i]
    out.append("*Scenarios (quick / thorough cases).* " + "; ".join(f"{n} ({q} / {t})" for n, q, t in ss) + "\n")
    bugs = sorted(b for b in res if res[b]["property"] == i)
    if bugs:
        out.append("*Planted bugs.* " + "; ".join(f"{b}: {res[b]['result']}" for b in bugs) + "\n")
n = len(res); k = sum(r["result"].startswith("caught") for r in res.values())
out.append(f"## Planted bugs\n\n{n} planted, {k} caught by their property's quick check (seed 1). Those first missed, and what was strengthened:\n")
out.append(ns["MISSED"])
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out))
print(len(props), "properties,", n, "bugs,", k, "caught")
