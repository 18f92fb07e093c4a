from vlib.harness import Scenario
from checks.declib import *
BOUNDS = 'images of 1 to 3 pixels in one dimension and up to 2x2 and 1x3 in two, real and complex, up to 3 passes of the loop, all pixel, kernel and starting-model values, gains, tolerances and areas'
OUTSIDE = 'larger images (pixels are reached only through the index modulo the size), more passes, the size of rounding errors'
EXPLANATION = 'The LLVM IR of deconv.cpp is executed on symbolic images, below the executed deconv.clean; at every way out of the loop the residual is compared with the image minus the convolution of the model, written out as a sum.'
PREPARE = cdrv.prepare('_deconv')
S1, S2 = [(2,), (3,), (1,)], [(2, 2), (1, 3), (2, 1)]
KINDS = ['float64', 'complex128', 'float32', 'complex64']

def wrapper(V, n, it, kinds=('float64', 'complex128')):
    """One pass over _deconv.clean with symbolic everything, any types."""
def direct(shapes, kinds, its, area=True, unit=False, stops=[1, 0]):
    def f(M, V, ck):
        s = V.choose('shape', shapes); kd = V.choose('kind', kinds); it = V.choose('maxiter', its); div = V.choose('stop', stops); pos = V.choose('pos', [0, 1]) if kd[0] == 'f' and area is True else 0
        res, ker, mdl = V.typed('r', s, kd, lo=-10, hi=10), kernel(V, s, kd, unit), V.typed('m', s, kd, lo=-10, hi=10)
        A = np.ones(s, dtype=int)
        if area == 'two':
            d = 1
            for k in np.ndindex(*s): A[k] = (sum(k) + d) % 2
        elif area: 
            A.flat[V.choose('outside', range(A.size))] = 0
        ar = V.typed('area', s, 'int64', vals=A)
        K = vals(V, ker); R, Mo = vals(V, res), vals(V, mdl)
        c0 = conv(Mo, K); I = {k: R[k] + c0[k] for k in R}
        V.assume(sum(abs2(v) for v in K.values()) > .01)
        M._deconv.clean(res, ker, mdl, ar, gain=V.real('gain', .01, 2), maxiter=it, tol=V.real('tol', 0, .5), stop_if_div=div, pos_def=pos)
        same(V, ck, I, vals(V, mdl), K, vals(V, res)); ck.eq(list(vals(V, ker).values()), list(K.values()), 'the kernel is not modified')
        ck.guards(V, 'memory outside the arrays is untouched')
    return f
def kernel(V, s, kd, unit):
    if not unit: return V.typed('k', s, kd, lo=-2, hi=2)
    n = int(np.prod(s)); p = V.choose('peak', unit if isinstance(unit, list) else range(n))
    return V.typed('k', s, kd, vals=V.arr([1. if i == p else (V.real if kd[0] == 'f' else V.cplx)('k%d' % i, -.7, .7) for i in range(n)]).reshape(s))
def same(V, ck, I, m, K, r):
    c = conv(m, K); ks = sorted(I)
    ck.close([r[k] for k in ks], [I[k] - c[k] for k in ks], 'the residual is the image minus the model convolved with the kernel', tol=1e-4 if not V.symbolic else 1e-6)
def python(shapes, its, kinds=[0, 1]):
    def f(M, V, ck):
        s = V.choose('shape', shapes); cx = V.choose('complex', kinds); it = V.choose('maxiter', its); given = V.choose('mdl', [0, 1])
        g = V.carray if cx else V.array
        im = g('im', s, -10, 10); k1 = (V.cplx if cx else V.real)('k1', -.7, .7); mdl = g('m', s, -10, 10) if given else None
        ker = V.arr([V.choose('sign', [1., -2.]), k1]).reshape(s) + (0j if cx else 0)
        keep = [None if x is None else x.copy() for x in (im, ker, mdl)]
        V.assume(sum(abs2(v) for v in avals(ker).values()) > .01)
        m, info = M.deconv.clean(im, ker, mdl=mdl, gain=V.real('gain', .01, 2), maxiter=it, tol=V.real('tol', 0, .5), stop_if_div=V.choose('stop', [True, False]))
        ck.shape(m, s, 'model'); ck.shape(info['res'], s, 'residual')
        same(V, ck, avals(im), avals(m), avals(ker), avals(info['res']))
        for a, b in zip((im, ker, mdl), keep):
            if a is not None: ck.eq(list(np.asarray(a).flat), list(np.asarray(b).flat), 'inputs are not modified')
    return f
def layouts(M, V, ck):
    """Arrays that are not laid out as plain C arrays, or in the other byte order: right answer or refused."""
    which = V.choose('which', [0, 1, 2, 3]); how = V.choose('how', ['step', 'neg', 'F', 'swap']); s = V.choose('shape', [(2,), (2, 2)]) 
    kd = V.choose('kind', ['float64', 'complex64'])
    L = ['C'] * 4; T = [kd] * 3 + ['int64']
    if how == 'swap': T[which] = np.dtype(T[which]).newbyteorder('>')
    else: L[which] = how
    n = int(np.prod(s)); S = lambda a: V.arr((a + [-.25, .125][:n - 2])[:n]).reshape(s)
    res, ker, mdl = V.typed('r', s, T[0], L[0], vals=S([V.real('r0', -10, 10), V.real('r1', -10, 10)])), V.typed('k', s, T[1], L[1], vals=S([1., V.real('k1', -.5, .5)])), V.typed('m', s, T[2], L[2], vals=S([V.real('m0', -10, 10), .5]))
    ar = V.typed('area', s, T[3], L[3], vals=np.array([1, 0, 1, 1][:int(np.prod(s))]).reshape(s))
    K = vals(V, ker); R, Mo = vals(V, res), vals(V, mdl); c0 = conv(Mo, K); I = {k: R[k] + c0[k] for k in R}
    V.assume(sum(abs2(v) for v in K.values()) > .01)
    try: M._deconv.clean(res, ker, mdl, ar, gain=.5, maxiter=2, tol=0., stop_if_div=1)
    except ValueError:
        ck.eq(list(vals(V, res).values()), list(R.values()), 'a refused call changes nothing'); ck.eq(list(vals(V, mdl).values()), list(Mo.values()), 'a refused call changes nothing')
    else: same(V, ck, I, vals(V, mdl), K, vals(V, res))
    ck.guards(V, 'memory outside the arrays is untouched')
def badargs(M, V, ck):
    f, c, i = 'float64', 'complex128', 'int64'
    cs = [((2,), f), ((3,), f), ((2,), f), ((2,), i)], [((2,), f), ((2,), f), ((3,), f), ((2,), i)], [((2,), f), ((2,), f), ((2,), f), ((1,), i)], [((2,), f), ((2,), c), ((2,), f), ((2,), i)], \
         [((2,), f), ((2,), f), ((2,), 'float32'), ((2,), i)], [((2,), f), ((2,), f), ((2,), f), ((2,), 'int32')], [((2,), f), ((2,), f), ((2,), f), ((2,), f)], [((2,), i), ((2,), i), ((2,), i), ((2,), i)], \
         [((2, 2), f), ((2, 1), f), ((2, 2), f), ((2, 2), i)], [((2, 2), f), ((2, 2), f), ((1, 2), f), ((2, 2), i)], [((2, 2), f), ((2, 2), f), ((2, 2), f), ((4,), i)], [((2, 2), f), ((2, 2), f), ((2, 2), f), ((2, 1), i)], \
         [((2, 1, 1), f)] * 3 + [((2, 1, 1), i)], [((), f)] * 3 + [((), i)], [((2, 1, 1), f), ((2,), f), ((1,), f), ((1,), i)], [((0,), f)] * 3 + [((0,), i)], [((2, 0), c)] * 3 + [((2, 0), i)]
    a = V.choose('case', list(cs))
    A = [V.typed('a%d' % k, s, t, lo=-5, hi=5) for k, (s, t) in enumerate(a)]
    R, Mo = vals(V, A[0]), vals(V, A[2])
    ck.raises((ValueError, TypeError), lambda: M._deconv.clean(*A, maxiter=2), 'arrays that do not fit are refused')
    for x, o in ((A[0], R), (A[2], Mo)):
        n = vals(V, x)
        for k in o: ck.bits(n[k], o[k], 'a refused call changes nothing')
    ck.guards(V, 'memory outside the arrays is untouched')
O = dict(stubs=ST, max_paths=3000, branch_ms=0, budget=(150, 900))
SCENARIOS = [
    Scenario('real', direct(S1[:1], KINDS[:1], [0, 1, 2], area=False), **O),
    Scenario('real, more passes', direct(S1[:1], KINDS[:1], [3], area=False, unit=True), **O),
    Scenario('complex', direct(S1[:1], KINDS[1:2], [2], area=False), **O),
    Scenario('area', direct(S1[:1], KINDS[:2], [2], unit=True), **O),
    Scenario('three pixels', direct(S1[1:], KINDS[:1], [2], area=False, unit=True), **O),
    Scenario('three pixels, complex', direct(S1[1:2], KINDS[1:2], [2], area='two', unit=[1]), **O),
    Scenario('two by two', direct(S2[:1], KINDS[:1], [2], area='two', unit=[0]), **O),
    Scenario('two by two, complex', direct(S2[:1], KINDS[1:2], [2], area='two', unit=[3], stops=[1]), **O),
    Scenario('rows and columns', direct(S2[1:2], KINDS[:1], [2], area=False, unit=True), **O),
    Scenario('columns, complex', direct(S2[2:], KINDS[1:2], [2], area=False, unit=True), **O),
    Scenario('single precision', direct([(2,), (2, 1)], KINDS[2:], [2], area=False, unit=True), **O),
    Scenario('python', python([(2,), (2, 1)], [2], [0]), **O),
    Scenario('python, complex', python([(2,), (1, 2)], [2], [1]), **O),
    Scenario('python, one pass', python([(1, 2), (2,)], [0, 1]), **O),
    Scenario('layouts', layouts, **O),
    Scenario('badargs', badargs, **O),
]
