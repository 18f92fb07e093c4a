from vlib import cdrv
from checks.common import *
ST = {'aipy._dsp': cdrv.cmodule('_dsp')}
F1, F2 = 0.79788456080286541, 0.63661977236758149
def place(V, x, lo, hi):
    """Positions exactly on a cell, or clear of the cell boundaries by more than single-precision rounding."""
    if isinstance(x, np.generic): x = float(x)
    f = V.floor(x); fl = V.pick(f, range(lo, hi + 1))
    V.assume(fl is not None)
    V.assume((x == fl) | ((x - fl > .001) & (x - fl < .999)))
    return x, fl, bool(x == fl), f
def cells(p, fp):
    """(cell, distance) over the footprint: from the cell at or below position - fp//2 to the one at or above position + fp//2."""
    x, fl, exact, f = p
    return [(j, x - j) for j in range(fl - fp//2, fl + (0 if exact else 1) + fp//2 + 1)]
def cval(z): return complex(z) if isinstance(z, np.generic) else z
def grids(V, a): return {k: cval(V.elem(a, k)) for k in np.ndindex(*a.shape)}
