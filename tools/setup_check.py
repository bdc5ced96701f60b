"""setup_cmd: nothing to build (pure Python); fail early if a tool is missing."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.core import z3

s = z3.Solver()
x = z3.BitVec("x", 8)
s.add(x > 3)
assert s.check() == z3.sat
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
