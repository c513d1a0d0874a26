"""setup_cmd: the framework is pure Python; check that everything it needs imports and that the solver answers."""
import sys
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import torch, z3, numpy  # noqa: E401
s = z3.Solver(); x = z3.Real("x"); s.add(x * x < 0)
assert s.check() == z3.unsat
print("torch", torch.__version__, "z3", z3.get_version_string(), "numpy", numpy.__version__)
