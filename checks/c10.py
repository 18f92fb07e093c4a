from vlib.harness import Scenario
from checks.gridlib import *
BOUNDS = 'grids of 1 to 5 cells (1-D) and up to 3 by 3 (2-D), 1 or 2 data at any position within two grid lengths of the grid, footprints 0 to 6 and the default, all data and initial grid values'
OUTSIDE = 'larger grids (cells are reached only through the index modulo the size); single-precision rounding'
EXPLANATION = 'The LLVM IR of grid.c and dsp.c is executed on symbolic positions; each path fixes the cells of the footprint and the grid afterwards is compared with the Gaussian-weighted sum.'
PREPARE = cdrv.prepare('_dsp')

def one(n, fps, nd=1, lo=None, hi=None):
    def f(M, V, ck):
        g = V.choose('n', n); fp = V.choose('fp', fps)
        L, H = (-2*g if lo is None else lo), (2*g if hi is None else hi)
        b = V.typed('b', (g,), 'complex64'); d = V.typed('d', (nd,), 'complex64'); x = V.typed('x', (nd,), 'float32', lo=L, hi=H)
        exp = grids(V, b)
        P = [place(V, V.elem(x, (q,)), L, H) for q in range(nd)]; D = [cval(V.elem(d, (q,))) for q in range(nd)]
        M._dsp.grid1D_c(*([b, x, d] + ([fp] if fp is not None else [])))
        seen = set()
        for q in range(nd):
            for j, r in cells(P[q], 6 if fp is None else fp):
                exp[(j % g,)] = exp[(j % g,)] + D[q] * (F1 * M.np.exp(-2*r*r)); seen.add(j % g)
        for k in exp: ck.close(cval(V.elem(b, k)), exp[k], 'cells of the footprint gain weight times datum' if k[0] in seen else 'other cells keep their value', tol=1e-3, drop=1e-5)
        for q in range(nd):
            ck.eq(cval(V.elem(d, (q,))), D[q], 'data unchanged')
            ck.eq(V.elem(x, (q,)), P[q][0], 'positions unchanged')
        ck.guards(V, 'memory outside the arrays is untouched')
    return f
def two(shapes, fps, nd=1, wide=True):
    def f(M, V, ck):
        n, m = V.choose('shape', shapes); fp = V.choose('fp', fps); ax = V.choose('axis', [0, 1]) if wide else None
        X, Y = (-n, 2*n) if ax == 0 else (0, 1), (-m, 2*m) if ax == 1 else (0, 1)
        b = V.typed('b', (n, m), 'complex64'); d = V.typed('d', (nd,), 'complex64')
        x, y = V.typed('x', (nd,), 'float32', lo=X[0], hi=X[1]), V.typed('y', (nd,), 'float32', lo=Y[0], hi=Y[1])
        exp = grids(V, b)
        P = [(place(V, V.elem(x, (q,)), *X), place(V, V.elem(y, (q,)), *Y)) for q in range(nd)]; D = [cval(V.elem(d, (q,))) for q in range(nd)]
        M._dsp.grid2D_c(*([b, x, y, d] + ([fp] if fp is not None else [])))
        seen = set()
        for q in range(nd):
            for i, r in cells(P[q][0], 6 if fp is None else fp):
                for j, s in cells(P[q][1], 6 if fp is None else fp):
                    k = (i % n, j % m); exp[k] = exp[k] + D[q] * (F2 * M.np.exp(-2*(r*r + s*s))); seen.add(k)
        for k in exp: ck.close(cval(V.elem(b, k)), exp[k], 'cells of the footprint gain weight times datum' if k in seen else 'other cells keep their value', tol=1e-3, drop=1e-5)
        ck.guards(V, 'memory outside the arrays is untouched')
    return f
def badargs(M, V, ck):
    """Arrays that do not fit are refused and change nothing."""
    c = V.choose('case', [('1', ((3,), 'complex64'), ((2,), 'float32'), ((3,), 'complex64')), ('1', ((3,), 'complex64'), ((2,), 'float64'), ((2,), 'complex64')),
        ('1', ((3,), 'complex128'), ((2,), 'float32'), ((2,), 'complex64')), ('1', ((3,), 'complex64'), ((2,), 'float32'), ((2,), 'complex128')), ('1', ((3,), 'float32'), ((2,), 'float32'), ((2,), 'complex64')),
        ('1', ((3, 2), 'complex64'), ((2,), 'float32'), ((2,), 'complex64')), ('1', ((3,), 'complex64'), ((2, 1), 'float32'), ((2,), 'complex64')), ('1', ((3,), 'complex64'), ((2,), 'float32'), ((2, 1), 'complex64')),
        ('2', ((2, 3), 'complex64'), ((2,), 'float32'), ((3,), 'float32'), ((3,), 'complex64')), ('2', ((2, 3), 'complex64'), ((3,), 'float32'), ((2,), 'float32'), ((3,), 'complex64')),
        ('2', ((2, 3), 'complex64'), ((2,), 'float32'), ((2,), 'float32'), ((3,), 'complex64')), ('2', ((6,), 'complex64'), ((2,), 'float32'), ((2,), 'float32'), ((2,), 'complex64')),
        ('2', ((2, 3), 'complex64'), ((2,), 'float64'), ((2,), 'float32'), ((2,), 'complex64')), ('2', ((2, 3), 'complex64'), ((2,), 'float32'), ((2,), 'int32'), ((2,), 'complex64')),
        ('2', ((2, 3), 'complex128'), ((2,), 'float32'), ((2,), 'float32'), ((2,), 'complex64')), ('2', ((2, 3), 'complex64'), ((2,), 'float32'), ((2,), 'float32'), ((2,), 'float32')), ('2', ((2, 3), 'complex64'), ((2,), 'float32'), ((2,), 'float32'), ((2,), 'complex128'))])
    A = [V.typed('a%d' % k, s, t, lo=-2, hi=2) for k, (s, t) in enumerate(c[1:])]
    old = grids(V, A[0])
    ck.raises((ValueError, TypeError), lambda: (M._dsp.grid1D_c if c[0] == '1' else M._dsp.grid2D_c)(*A), 'arrays that do not fit are refused')
    for k in old: ck.eq(cval(V.elem(A[0], k)), old[k], 'a refused call changes nothing')
    ck.guards(V, 'memory outside the arrays is untouched')
def layouts(M, V, ck):
    """Arrays that are not contiguous are gridded correctly or refused."""
    lb, lx, ld = V.choose('lay', [('step', 'C', 'C'), ('F', 'C', 'C'), ('neg', 'C', 'C'), ('C', 'step', 'C'), ('C', 'neg', 'C'), ('C', 'C', 'step'), ('C', 'C', 'neg')])
    n, m, fp = 2, 3, 0
    b = V.typed('b', (n, m), 'complex64', lb); d = V.typed('d', (2,), 'complex64', ld); x, y = V.typed('x', (2,), 'float32', lx, 0, n - 1), V.typed('y', (2,), 'float32', 'C', 0, m - 1)
    exp = grids(V, b); P = [(place(V, V.elem(x, (q,)), 0, n), place(V, V.elem(y, (q,)), 0, m)) for q in range(2)]; D = [cval(V.elem(d, (q,))) for q in range(2)]
    try: M._dsp.grid2D_c(b, x, y, d, fp)
    except (ValueError, TypeError): pass
    else:
        for q in range(2):
            for i, r in cells(P[q][0], fp):
                for j, s in cells(P[q][1], fp): exp[i % n, j % m] = exp[i % n, j % m] + D[q] * (F2 * M.np.exp(-2*(r*r + s*s)))
    for k in exp: ck.close(cval(V.elem(b, k)), exp[k], 'arrays that are not contiguous are gridded correctly or refused', tol=1e-3, drop=1e-5)
    ck.guards(V, 'memory outside the arrays is untouched')
def empty(M, V, ck):
    """No data change nothing; a grid without cells is refused or left alone."""
    two, n, k = V.choose('case', [(False, 3, 0), (True, 3, 0), (False, 0, 1), (True, 0, 1)])
    b = V.typed('b', (2, n) if two else (n,), 'complex64'); x, d = V.typed('x', (k,), 'float32', lo=0, hi=3), V.typed('d', (k,), 'complex64')
    old = grids(V, b)
    try: M._dsp.grid2D_c(b, x, x, d) if two else M._dsp.grid1D_c(b, x, d)
    except ValueError: ck.true(n == 0, 'no data are accepted')
    for q in old: ck.eq(cval(V.elem(b, q)), old[q], 'no data change nothing')
    ck.guards(V, 'memory outside the arrays is untouched')
SCENARIOS = [
    Scenario('grid1', one([1, 3, 5], [0, 1, 2]), ST, max_paths=2000, points=(10, 60), bounds='1, 3 or 5 cells, footprints 0 to 2'),
    Scenario('grid1_wide', one([2, 4], [5, 6, None], lo=-1, hi=2), ST, max_paths=2000, points=(10, 60), bounds='2 or 4 cells, footprints 5, 6 and default'),
    Scenario('grid1_two', one([3], [0, 2], 2, 0, 2), ST, max_paths=2000, points=(6, 40), bounds='3 cells, 2 data'),
    Scenario('grid1_far', one([3], [2], lo=-40, hi=40), ST, max_paths=2000, points=(6, 40), bounds='positions up to 40 cells away'),
    Scenario('grid2', two([(1, 3), (2, 3), (3, 2), (2, 2)], [0]), ST, max_paths=3000, points=(10, 60), bounds='up to 3 by 3, footprint 0'),
    Scenario('grid2_wide', two([(2, 3), (3, 1)], [1, 2, None], wide=False), ST, max_paths=2000, points=(6, 40), bounds='footprints 2 and default'),
    Scenario('grid2_two', two([(1, 3), (2, 2)], [0], 2, False), ST, max_paths=3000, points=(6, 40), bounds='2 data'),
    Scenario('badargs', badargs, ST, points=(17, 40)),
    Scenario('layouts', layouts, ST, max_paths=3000, points=(7, 40)),
    Scenario('empty', empty, ST, points=(4, 8), isolate=True),
]
