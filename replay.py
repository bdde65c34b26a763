#!/opt/venv/bin/python
"""replay.py FILE: runs one counterexample against the ordinary package; exit 1 if it still fails"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")


def main():
    d = json.load(open(sys.argv[1]))
    from engine import harness as H
    from run_check import task_list
    mod = importlib.import_module("checks." + d["property"].lower())
    name, fn, case, _ = task_list(mod, d["tier"])[d["task"]]
    st, fails, used = H.run_concrete(fn, case, d["values"], seed=d["seed"])
    print("%s %s %s" % (d["property"], name, case))
    for k, v in used.items():
        print("  %s = %r" % (k, v))
    for f in fails:
        print("FAIL %s: %s" % (f.label, f.detail))
    print(st)
    sys.exit(1 if st == "fail" else 0)


if __name__ == "__main__":
    main()
