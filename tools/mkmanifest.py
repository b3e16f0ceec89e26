#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "online monitor: every estimate judged against an independently recomputed updated density",
 "C02": "online trace monitor with a shadow model of the configuration, over random and enumerated call histories",
 "C03": "runtime monitor over weight forms, metamorphic scaling and exclusion runs",
 "C04": "runtime monitor comparing defaulted with explicitly configured problems",
 "C05": "runtime monitor of the diagnostic plus statistical monitor over planted predictability errors",
 "C06": "metamorphic runtime monitor: permuted and rescaled twin executions",
 "C07": "online monitor: every MAP answer judged against the recomputed posterior",
 "C08": "twin-execution monitor: plain and logarithmic mode on the same workload",
 "C09": "runtime oracle: optimality conditions and independent reference on every solve",
 "C10": "runtime oracle: stacked least-squares reference and perturbation probes on every solve",
 "C11": "history monitor over request sequences, each answer judged alone",
 "C12": "runtime oracle on defining properties of the updated covariance",
 "C13": "runtime oracle on functional values at sampled points",
 "C14": "runtime oracle on quadratic forms for all argument forms",
 "C15": "twin-execution monitor across entry points and argument forms",
 "C16": "runtime oracle on the error map plus statistical monitor",
 "C17": "runtime oracle: affine maps evaluated against the error map they replace",
 "C18": "trace monitor: each link of a chain recomputed from its predecessor",
 "C19": "trace monitor: distance to exact solutions after each link",
 "C20": "runtime oracle: selections against direct indexing, values naming their own place",
 "C21": "history monitor: shadow acceptance model and state snapshots around refusals",
 "C22": "runtime oracle: quantities recomputed from the data cube",
 "C23": "statistical monitor on recorded noise draws, seed and random-state observation",
 "C24": "runtime oracle on loaded fields for random mappings and files",
 "C25": "runtime oracle: every candidate sample's distance recomputed",
 "C26": "runtime oracle on defining properties of components",
 "C27": "runtime oracle on defining properties of the decomposition",
 "C28": "runtime oracle: count, orthonormality, annihilation, completeness",
 "C29": "runtime oracle: Eckart-Young optimality of every rank update",
 "C30": "runtime oracle on domains and meshes, argument sanitizer",
 "C31": "plot monitor: every drawn curve compared with the marginal of the configuration in force",
 "C32": "artist and state sanitizer around every plotting call",
 "C33": "input, aliasing and random-state sanitizer around every public computation",
 "C34": "runtime oracle recovering the noise and groups from the built problem",
 "C35": "runtime oracle and statistical monitor on generated data",
 "C36": "taps on problem classes during seeded example runs, repeated after unrelated activity",
 "C37": "file-system and figure monitor around example runs; parsed-back tables",
 "C38": "generated expression compiled and executed against the interpolant",
 "C39": "plot monitor: drawn lines, markers and contours against problem geometry",
 "C40": "plot monitor: drawn series and sensors looked up in the study",
 "C41": "recording stand-in for the solver library; stored values traced to the solve they came from",
}
NOTE = (
 "Judges the real code on every execution it makes: seeded random, structured and hostile inputs, histories and option combinations "
 "(counts in the evidence file). Assurance is for those executions only. Trusts numpy, scipy, scikit-learn, matplotlib and click; "
 "numeric tolerances are relative to the conditioning of each case."
)
EXTRA = {
 "C05": " The statistical part uses thresholds with false-alarm probability below 1e-9 per run.",
 "C16": " Statistical thresholds have false-alarm probability below 1e-9.",
 "C23": " Statistical thresholds have false-alarm probability below 1e-9.",
 "C35": " Statistical thresholds have false-alarm probability below 1e-9.",
 "C38": " Needs g++, which compiles the expression as the solver library would.",
 "C41": " The finite-element library is absent; its solve is replaced by a closed-form field, so the numerical PDE solution itself is not judged.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i, "quick_cmd": f"./check.sh {i} --tier quick", "thorough_cmd": f"./check.sh {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, sklearn, matplotlib, click\" && mkdir -p evidence",
     "checks": checks, "not_applicable": [],
     "notes": "Pure Python: nothing to compile. Checks import mud from /repo/src directly and hook it from outside (method taps), so /repo carries no hooks."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
