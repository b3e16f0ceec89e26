"""Run every planted bug against its property's quick check -> tools/seed_results.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import seedlib
R = os.path.join(os.path.dirname(__file__), "seed_results.json")
old = json.load(open(R)) if os.path.exists(R) else {}
ids = sys.argv[1:] or sorted(os.listdir(seedlib.SEEDED))
for k in list(old):
    if not os.path.isdir(f"{seedlib.SEEDED}/{k}"):
        del old[k]
for i in ids:
    m = json.load(open(f"{seedlib.SEEDED}/{i}/meta.json"))
    _, s = seedlib.run(i)
    r = "caught" if "CAUGHT" in s else "missed" if "MISSED" in s else "error"
    print(i, s, flush=True)
    old[i] = {"property": m["property"], "result": r}
    json.dump(dict(sorted(old.items())), open(R, "w"), indent=0)
