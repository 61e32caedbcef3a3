"""writes MANIFEST.json from the list of finished checks"""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
ALG = ("symbolic execution of the jaxpr of the real functions over the reals; per-path SMT queries (Z3) on normalised "
       "polynomial/rational arithmetic with exact trigonometric and square-root relations")
TM = ("symbolic execution of the jaxpr of the real functions; validated Taylor-model enclosures per cell of a complete "
      "subdivision of the bounded input box, decided per cell by SMT (Z3, linear real arithmetic), counterexamples replayed")
NOTE = ("Exact-real semantics of the compiler IR (floating-point rounding is outside the claim except where stated). "
        "Trusts the jaxpr tracer, the translator (validated against the real code at random points on every run) and Z3. {}")
CLAIMED = {}
NA = {}
exec(open(os.path.join(here, "tools", "claims.py")).read())
checks = []
for id in sorted(CLAIMED):
    tech, note = CLAIMED[id]
    checks.append(dict(property=id, quick_cmd=f"/opt/venv/bin/python check.py {id} --tier quick",
                       thorough_cmd=f"/opt/venv/bin/python check.py {id} --tier thorough",
                       evidence_file=f"evidence/{id}.json", technique={"alg": ALG, "tm": TM, "both": ALG + "; and " + TM}[tech],
                       level="other", level_note=NOTE.format(note)))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="Solver-based checking: see DESIGN.md. No hooks are needed in /repo. check.py PROP [--tier] [--only OBLIGATION] [-v] [--replay FILE].")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
missing = [i for i in ids if i not in CLAIMED and i not in NA]
print("claimed", len(CLAIMED), "na", len(NA), "missing", missing)
