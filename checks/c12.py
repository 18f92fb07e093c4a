from vlib.harness import Scenario
from vlib import cdrv
from checks.common import *
BOUNDS = 'index values over the whole 64-bit range; data over the whole range of each type; arrays of rank 1 to 3 with up to 6 elements and 1 to 3 data, in C, Fortran, strided and reversed layouts'
OUTSIDE = 'larger arrays and more data (each datum is handled independently); long double rounding'
EXPLANATION = 'The LLVM IR of utils.cpp is executed on symbolic indices (64-bit vectors) and data; every memory access must stay inside its array, and the array afterwards is compared with the specified accumulation.'
PREPARE = cdrv.prepare('utils')
ST = {'aipy.utils': cdrv.cmodule('utils')}
INT = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'longlong', 'ulonglong']
FLT = ['float32', 'float64', 'longdouble', 'complex64', 'complex128', 'clongdouble']
def plus(a, b, dt):
    k = np.dtype(dt).kind
    if k == 'b': return a | b
    if k in 'iu' and isinstance(a, np.generic):
        with np.errstate(all='ignore'): return a + b
    return a + b
def run(M, V, ck, shape, n, dt, lay=('C', 'C', 'C')):
    a = V.typed('a', shape, dt, lay[0]); d = V.typed('d', (n,), dt, lay[2])
    ind = V.typed('i', (n, len(shape)), 'int64', lay[1])
    exp = {k: V.elem(a, k) for k in np.ndindex(*shape)}
    dv = [V.elem(d, (q,)) for q in range(n)]; iv = [[V.elem(ind, (q, j)) for j in range(len(shape))] for q in range(n)]
    err = None
    try: M.utils.add2array(a, ind, d)
    except (ValueError, IndexError) as e: err = e
    bad = False
    for q in range(n):
        ix = [V.pick(iv[q][j], range(-shape[j], shape[j])) for j in range(len(shape))]
        if None in ix: bad = True; break
        k = tuple(i % s for i, s in zip(ix, shape))
        exp[k] = plus(exp[k], dv[q], dt)
    ck.true((err is not None) == bad, 'an index outside the array is refused' if bad else 'valid indices are accepted')
    ck.guards(V, 'memory outside the arrays is untouched')
    if not bad:
        for k in exp: ck.bits(V.elem(a, k), exp[k], 'every datum is added to its element exactly once')
    for q in range(n):
        ck.bits(V.elem(d, (q,)), dv[q], 'data unchanged')
        for j in range(len(shape)): ck.bits(V.elem(ind, (q, j)), iv[q][j], 'indices unchanged')

def types(dts):
    def f(M, V, ck):
        run(M, V, ck, (2,), 2, V.choose('dt', dts))
    return f
def shapes(M, V, ck):
    shape, n = V.choose('shape', [((5,), 1), ((3,), 2), ((2, 3), 1), ((1, 2), 2), ((2, 1, 2), 1), ((1, 1, 1, 2), 1)])
    run(M, V, ck, shape, n, V.choose('dt', ['int32', 'complex128']))
def layouts(M, V, ck):
    lay = V.choose('lay', [('F', 'C', 'C'), ('step', 'C', 'C'), ('neg', 'C', 'C'), ('C', 'F', 'C'), ('C', 'step', 'C'), ('C', 'neg', 'C'), ('C', 'C', 'step'), ('C', 'C', 'neg'), ('neg', 'F', 'step')])
    run(M, V, ck, (2, 2), 1, V.choose('dt', ['int16', 'float64', 'complex64']), lay)
def repeats(M, V, ck):
    """Three data, all allowed to fall on one element."""
    run(M, V, ck, (2,), 3, 'int64')
def refused(M, V, ck):
    """Wrong ranks, lengths and types are refused and change nothing."""
    sa, si, sd, ta, ti, td = V.choose('case', [
        ((3,), (2, 1), (3,), 'int32', 'int64', 'int32'),        # lengths differ
        ((3,), (3, 1), (2,), 'int32', 'int64', 'int32'),
        ((3,), (2, 2), (2,), 'int32', 'int64', 'int32'),        # index width differs from the rank
        ((2, 2), (2, 1), (2,), 'int32', 'int64', 'int32'),
        ((3,), (2,), (2,), 'int32', 'int64', 'int32'),          # rank of the indices
        ((3,), (2, 1, 1), (2,), 'int32', 'int64', 'int32'),
        ((3,), (2, 1), (2, 1), 'int32', 'int64', 'int32'),      # rank of the data
        ((3,), (2, 1), (), 'int32', 'int64', 'int32'),
        ((3,), (2, 1), (2,), 'int32', 'int32', 'int32'),        # index type
        ((3,), (2, 1), (2,), 'int32', 'uint64', 'int32'),
        ((3,), (2, 1), (2,), 'int32', 'float64', 'int32'),
        ((3,), (2, 1), (2,), '>i4', 'int64', '>i4'),            # byte order
        ((3,), (2, 1), (2,), '>f8', 'int64', 'float64'),
        ((3,), (2, 1), (2,), 'int32', '>i8', 'int32'),
        ((3,), (2, 1), (2,), 'float32', 'int64', '>f4'),
        ((3,), (2, 1), (2,), 'int32', 'int64', 'int64'),        # data type
        ((3,), (2, 1), (2,), 'float32', 'int64', 'float64'),
        ((3,), (2, 1), (2,), 'float64', 'int64', 'complex128'),
        ((3,), (2, 1), (2,), 'complex64', 'int64', 'float64')])
    a, i, d = V.typed('a', sa, ta), V.typed('i', si, ti), V.typed('d', sd, td)
    old = {k: V.elem(a, k) for k in np.ndindex(*sa)}
    ck.raises((ValueError, TypeError), lambda: M.utils.add2array(a, i, d), 'arrays that do not fit are refused')
    for k in old: ck.bits(V.elem(a, k), old[k], 'a refused call changes nothing')
    ck.guards(V, 'memory outside the arrays is untouched')
def notarray(M, V, ck):
    """Something that is not an array is refused."""
    a, i, d = V.typed('a', (3,), 'int32'), V.typed('i', (2, 1), 'int64'), V.typed('d', (2,), 'int32')
    args = [a, i, d]; args[V.choose('pos', [0, 1, 2])] = V.choose('what', [[1, 2], None, 3, 'abc'])
    ck.raises((ValueError, TypeError), lambda: M.utils.add2array(*args), 'arguments that are not arrays are refused')
def empty(M, V, ck):
    a, i, d = V.typed('a', (3,), 'float64'), V.typed('i', (0, 1), 'int64'), V.typed('d', (0,), 'float64')
    old = [V.elem(a, (k,)) for k in range(3)]
    M.utils.add2array(a, i, d)
    for k in range(3): ck.bits(V.elem(a, (k,)), old[k], 'no data changes nothing')
SCENARIOS = [
    Scenario('types_int', types(INT[:5]), ST, points=(6, 60), bounds='2 elements, 2 data, 8 to 32-bit'),
    Scenario('types_int2', types(INT[5:]), ST, points=(6, 60), bounds='2 elements, 2 data, 32 to 64-bit'),
    Scenario('types_float', types(FLT + ['bool']), ST, max_paths=2000, points=(8, 60), bounds='2 elements, 2 data'),
    Scenario('shapes', shapes, ST, max_paths=2000, points=(10, 60), bounds='rank 1 to 4'),
    Scenario('layouts', layouts, ST, max_paths=2000, points=(10, 60), bounds='2 by 2'),
    Scenario('repeats', repeats, ST, points=(6, 40), bounds='3 data into 2 elements'),
    Scenario('refused', refused, ST, points=(15, 40)),
    Scenario('notarray', notarray, ST, points=(6, 12), isolate=True),
    Scenario('empty', empty, ST, points=(2, 4)),
]
