"""Nothing to compile: check that the interpreter, the solvers and the code under contract load."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import core
s = core.z3.Solver(); x = core.z3.Int('x'); s.add(x > x)
assert s.check() == core.z3.unsat
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
