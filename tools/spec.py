#!/opt/venv/bin/python
"""single source of properties.jsonl and MANIFEST.json: run after editing"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


BASE, FER, SPI, GEO, SYM, NLCE, GAS, GFN = ("exact_diag/" + f for f in (
    "ed_base.py", "ed_fermions.py", "ed_spins.py", "ed_geometry.py", "ed_symmetry.py", "ed_nlce.py", "fermi_gas.py",
    "greens_fns.py"))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

NOTE = ("Symbolic execution of the repository's Python source (recompiled from /repo on every run) over symbolic array "
        "elements and parameters, with z3 deciding branch feasibility and every final obligation; sizes are bounded as "
        "stated in the evidence. A violation is reported only after the solver's counterexample fails on the ordinary "
        "package in a fresh interpreter. Instances the engine cannot decide are listed as inconclusive in the evidence "
        "and never reported as violations unless a concrete run of the real code fails.")

checks = []
for p in P:
    checks.append({
        "property": p["id"],
        "quick_cmd": "/opt/venv/bin/python -W ignore run_check.py %s quick" % p["id"],
        "thorough_cmd": "/opt/venv/bin/python -W ignore run_check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "solver-based checking: bounded symbolic execution of the real Python source with z3 (SMT), "
                     "counterexamples replayed on the unmodified code",
        "level": "model_checking", "level_note": NOTE})
for p in P:
    assert os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")) or p["id"] in [n[0]["id"] for n in NA], p["id"]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore tools/selftest.py",
     "checks": checks, "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P + [p for p, _ in NA]:
        f.write(json.dumps(p) + "\n")
print(len(P), "claimed", len(NA), "not applicable")
