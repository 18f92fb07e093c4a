"""run.py Cxx [--replay file]: decide one property on the current /repo."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import harness
prop = sys.argv[1]
mod = importlib.import_module('checks.' + prop.lower())
rp = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
sys.exit(harness.main(prop, mod, rp))
