"""writes MANIFEST.json from the check modules present and the reasons below"""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C31": "PyTorch is not installed in this sandbox, so the backend's code cannot be executed, symbolically or otherwise.",
    "C32": "The JAX Krylov solvers refer to jax.ShapedArray and jax.ops.index_update, which the installed JAX no longer has, so they "
           "cannot run here and no counterexample could be replayed; besides, convergence to a tolerance within data-dependent trip "
           "counts is a floating point statement without a bounded exact-arithmetic form.",
}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
  f = f"{V}/checks/{p['id'].lower()}.py"
  if os.path.exists(f):
    c = {}
    for n in ast.parse(open(f).read()).body:
      if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS", "TECHNIQUE"):
        c[n.targets[0].id] = ast.literal_eval(n.value)
    note = ("Holds for every value of the symbolic entries/arguments within these bounds: " + c["BOUNDS"] + ". Outside: " + c["OUTSIDE"] +
            ". Exact real arithmetic replaces floating point.")
    if c.get("ASSUMPTIONS"):
      a = c["ASSUMPTIONS"]
      note += " Trusted: " + (a if isinstance(a, str) else "; ".join(a))
    checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
                   "technique": c.get("TECHNIQUE", "symbolic execution of the real Python code over symbolic entries and arguments, "
                                                   "assertions discharged by z3, counterexamples replayed"),
                   "level": "model_checking", "level_note": note})
  else:
    na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Known and repaired defects: known_findings.jsonl."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
