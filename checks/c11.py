from vlib.harness import Scenario
from checks.gridlib import *
BOUNDS = 'grids up to 3 by 3, 1 or 2 positions within two grid lengths of the grid, footprints 0 to 2 and the default, all grid values'
OUTSIDE = 'larger grids (cells are reached only through the index modulo the size); single-precision rounding'
EXPLANATION = 'The LLVM IR of grid.c and dsp.c is executed on symbolic positions; each path fixes the cells of the footprint and the result is compared with their Gaussian-weighted mean.'
PREPARE = cdrv.prepare('_dsp')

def call(M, b, x, y, d, fp): M._dsp.degrid2D_c(*([b, x, y, d] + ([fp] if fp is not None else [])))
def mean(shapes, fps, nd=1, wide=True):
    def f(M, V, ck):
        n, m = V.choose('shape', shapes); fp = V.choose('fp', fps); ax = V.choose('axis', [0, 1]) if wide else None
        X, Y = (-n, 2*n) if ax == 0 else (0, 1), (-m, 2*m) if ax == 1 else (0, 1)
        b = V.typed('b', (n, m), 'complex64', lo=-100, hi=100); d = V.typed('d', (nd,), 'complex64')
        x, y = V.typed('x', (nd,), 'float32', lo=X[0], hi=X[1]), V.typed('y', (nd,), 'float32', lo=Y[0], hi=Y[1])
        old = grids(V, b)
        P = [(place(V, V.elem(x, (q,)), *X), place(V, V.elem(y, (q,)), *Y)) for q in range(nd)]
        call(M, b, x, y, d, fp)
        for q in range(nd):
            W, S = 0, 0
            for i, r in cells(P[q][0], 6 if fp is None else fp):
                for j, s in cells(P[q][1], 6 if fp is None else fp):
                    w = M.np.exp(-2*(r*r + s*s)); W = W + w; S = S + w * old[i % n, j % m]
            v = cval(V.elem(d, (q,)))
            ck.close(v * W, S, 'the weighted mean of the cells of the footprint', tol=1e-4, drop=1e-5)
        for k in old: ck.eq(cval(V.elem(b, k)), old[k], 'the grid is not modified')
        ck.guards(V, 'memory outside the arrays is untouched')
    return f
def constant(M, V, ck):
    """A constant grid degrids to its value anywhere."""
    n, m = V.choose('shape', [(3, 3), (2, 3), (1, 2)]); fp = V.choose('fp', [0, 1, 2] if n < 3 else [0])
    c = V.cplx('c', -100, 100); b = V.typed('b', (n, m), 'complex64', vals=c); d = V.typed('d', (1,), 'complex64')
    x, y = V.typed('x', (1,), 'float32', lo=-1, hi=n), V.typed('y', (1,), 'float32', lo=-1, hi=m)
    P = [place(V, V.elem(x, (0,)), -1, n), place(V, V.elem(y, (0,)), -1, m)]
    call(M, b, x, y, d, fp)
    ck.eq(cval(V.elem(d, (0,))), c, 'a constant grid degrids to that constant', tol=1e-4)
def between(M, V, ck):
    """Real cells: the result lies between the smallest and the largest of those it reads."""
    n, m = V.choose('shape', [(2, 2), (2, 3)]); lo, hi = V.real('lo', -50, 50), V.real('hi', -50, 50); V.assume(lo <= hi)
    v = [[V.real('v%d_%d' % (i, j), -100, 100) for j in range(m)] for i in range(n)]
    b = V.typed('b', (n, m), 'complex64', vals=V.arr([[v[i][j] + 0j for j in range(m)] for i in range(n)])); d = V.typed('d', (1,), 'complex64')
    x, y = V.typed('x', (1,), 'float32', lo=0, hi=1), V.typed('y', (1,), 'float32', lo=0, hi=1)
    P = [place(V, V.elem(x, (0,)), 0, 1), place(V, V.elem(y, (0,)), 0, 1)]
    for i, r in cells(P[0], 0):
        for j, s in cells(P[1], 0): V.assume((v[i % n][j % m] >= lo) & (v[i % n][j % m] <= hi))
    call(M, b, x, y, d, 0)
    z = cval(V.elem(d, (0,)))
    ck.ge(z.real, lo, 'not below the smallest cell'); ck.le(z.real, hi, 'not above the largest cell'); ck.eq(z.imag, 0, 'a real grid degrids to real values')
def badargs(M, V, ck):
    c = V.choose('case', [(((2, 3), 'complex64'), ((2,), 'float32'), ((3,), 'float32'), ((3,), 'complex64')), (((2, 3), 'complex64'), ((3,), 'float32'), ((2,), 'float32'), ((3,), 'complex64')),
        (((2, 3), 'complex64'), ((2,), 'float32'), ((2,), 'float32'), ((3,), 'complex64')), (((6,), 'complex64'), ((2,), 'float32'), ((2,), 'float32'), ((2,), 'complex64')),
        (((2, 3), 'complex64'), ((2,), 'float64'), ((2,), 'float32'), ((2,), 'complex64')), (((2, 3), 'complex64'), ((2,), 'float32'), ((2,), 'int32'), ((2,), 'complex64')),
        (((2, 3), 'complex128'), ((2,), 'float32'), ((2,), 'float32'), ((2,), 'complex64')), (((2, 3), 'complex64'), ((2,), 'float32'), ((2,), 'float32'), ((2,), 'float32')), (((2, 3), 'complex64'), ((2,), 'float32'), ((2,), 'float32'), ((2,), 'complex128'))])
    A = [V.typed('a%d' % k, s, t, lo=-2, hi=2) for k, (s, t) in enumerate(c)]
    old = grids(V, A[0]); od = grids(V, A[3])
    ck.raises((ValueError, TypeError), lambda: M._dsp.degrid2D_c(*A), 'arrays that do not fit are refused')
    for k in old: ck.eq(cval(V.elem(A[0], k)), old[k], 'a refused call changes nothing')
    for k in od: ck.eq(cval(V.elem(A[3], k)), od[k], 'a refused call changes nothing')
    ck.guards(V, 'memory outside the arrays is untouched')
def layouts(M, V, ck):
    lb, lx, ld = V.choose('lay', [('step', 'C', 'C'), ('F', 'C', 'C'), ('neg', 'C', 'C'), ('C', 'step', 'C'), ('C', 'neg', 'C'), ('C', 'C', 'step'), ('C', 'C', 'neg')])
    n, m = 2, 3
    b = V.typed('b', (n, m), 'complex64', lb, -100, 100); d = V.typed('d', (2,), 'complex64', ld); x, y = V.typed('x', (2,), 'float32', lx, 0, n - 1), V.typed('y', (2,), 'float32', 'C', 0, m - 1)
    old = grids(V, b); od = grids(V, d); P = [(place(V, V.elem(x, (q,)), 0, n), place(V, V.elem(y, (q,)), 0, m)) for q in range(2)]
    try: call(M, b, x, y, d, 0)
    except (ValueError, TypeError):
        for k in od: ck.eq(cval(V.elem(d, k)), od[k], 'a refused call changes nothing')
    else:
        for q in range(2):
            W, S = 0, 0
            for i, r in cells(P[q][0], 0):
                for j, s in cells(P[q][1], 0): w = M.np.exp(-2*(r*r + s*s)); W = W + w; S = S + w * old[i % n, j % m]
            ck.close(cval(V.elem(d, (q,))) * W, S, 'arrays that are not contiguous are read correctly or refused', tol=1e-4, drop=1e-5)
    for k in old: ck.eq(cval(V.elem(b, k)), old[k], 'the grid is not modified')
def empty(M, V, ck):
    n, k = V.choose('case', [(3, 0), (0, 1)])
    b = V.typed('b', (2, n), 'complex64'); x, d = V.typed('x', (k,), 'float32', lo=0, hi=3), V.typed('d', (k,), 'complex64')
    try: call(M, b, x, x, d, None)
    except ValueError: ck.true(n == 0, 'no positions are accepted')
    ck.guards(V, 'memory outside the arrays is untouched')
SCENARIOS = [
    Scenario('mean', mean([(1, 3), (2, 3), (3, 2), (2, 2)], [0]), ST, max_paths=3000, points=(10, 60), bounds='up to 3 by 3, footprint 0'),
    Scenario('mean_wide', mean([(2, 3), (3, 1)], [1, 2, None], wide=False), ST, max_paths=3000, points=(6, 40), bounds='footprints 1, 2 and default'),
    Scenario('mean_two', mean([(1, 3), (2, 2)], [0], 2, False), ST, max_paths=3000, points=(6, 40), bounds='2 positions'),
    Scenario('constant', constant, ST, max_paths=2000, points=(6, 40)),
    Scenario('between', between, ST, max_paths=2000, points=(6, 40), bounds='footprint 0, up to 2 by 3'),
    Scenario('badargs', badargs, ST, points=(9, 20)),
    Scenario('layouts', layouts, ST, max_paths=3000, points=(7, 40)),
    Scenario('empty', empty, ST, points=(2, 8), isolate=True),
]
