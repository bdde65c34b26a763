#!/opt/venv/bin/python
"""setup: checks that the installed pieces the checks rely on are there"""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
import z3
from engine import harness
s = z3.Solver()
x = z3.Real("x")
s.add(x * x < 0)
assert s.check() == z3.unsat
print("ok: z3", z3.get_version_string(), "engine importable")
