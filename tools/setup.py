"""Smoke test: the tools the checks need are present."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True
import numpy, astropy, healpy, ephem
from vlib import sym
x = sym.z3.Int('x'); s = sym.z3.Solver(); s.add(x * x == 49, x < 0); assert s.check() == sym.z3.sat
assert os.path.exists('/usr/bin/clang') or os.path.exists('/usr/lib/llvm-18/bin/clang')
print('setup ok: z3', sym.z3.get_version_string(), 'numpy', numpy.__version__)
