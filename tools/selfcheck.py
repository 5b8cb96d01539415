"""Checks that the interpreter, the solver and the code under test can be loaded."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
from symex import engine  # noqa: E402

x = engine.z3.Real("x")
s = engine.z3.Solver()
s.add(x > 1, x < 1)
assert str(s.check()) == "unsat"
print("solver", engine.z3.get_version_string())
