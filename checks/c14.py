import signal
from vlib.harness import Scenario
from checks.declib import *
from vlib.sym import EngineLimit
BOUNDS = 'images of 1 to 3 pixels in one dimension and 2x2 and 1x3 in two, real and complex, up to 4 passes of the loop (the first finds the peak, each later one removes a component), all areas, pixel values, gains, tolerances and stop and positive-definite settings; kernel peak of any value for one step, 1 or -2 for more'
OUTSIDE = 'larger images, more passes, equally strong residuals (either may be picked), decisions that rounding could turn'
EXPLANATION = 'The LLVM IR of deconv.cpp below the executed deconv.clean, on symbolic images; compared with CLEAN written out step by step, the decisions on both sides being solver terms.'
PREPARE = cdrv.prepare('_deconv')
EPS = 1e-4
def rt(M, x): return M.np.sqrt(x)
def apart(V, a, b):
    d = a - b; V.assume((d > EPS) | (d < -EPS))
def kpeak(k):
    kp = None
    for i in sorted(k):
        if kp is None or bool(abs2(k[i]) > abs2(k[kp])): kp = i
    return kp
def clean(M, V, r, k, area, gain, n, tol, stop, pos):
    """CLEAN by its description.  Returns model, residual, passes (negative: diverged), reason."""
    r = dict(r); s = tuple(a + 1 for a in max(r)); m = {i: 0 for i in r}; ks = sorted(r); N = len(r); kp = kpeak(k)
    score = first = best = p = None
    for it in range(n):
        pm, pr = dict(m), dict(r)
        if p is not None:
            st = gain * r[p] / k[kp]; m[p] = m[p] + st
            for i in ks: r[i] = r[i] - k[tuple((a - b) % d for a, b, d in zip(i, p, s))] * st
        ns = rt(M, sum(abs2(r[i]) for i in ks) / N)
        q = None
        for i in ks:
            if not area[i]: continue
            if pos and not bool(r[i] > 0): continue
            if q is None or bool(abs2(r[i]) > abs2(r[q])): q = i
        for i in ks:
            if q is not None and area[i] and i != q: V.assume((abs2(r[q]) - abs2(r[i]) > EPS) | (abs2(r[q]) - abs2(r[i]) < -EPS))
            if pos and area[i]: V.assume((r[i] > EPS) | (r[i] < -EPS))
        if first is None: first = ns
        if score is not None and bool(score > 0):
            if p is not None: apart(V, ns, score)
            if bool(ns > score):
                if stop: return pm, pr, -it, 'divergence'
                if best is None or bool(score < best[0]): best = (score, pm, pr)
            else:
                x = (score - ns) / first; apart(V, x, tol)
                if bool(x < tol): return m, r, it, 'tol'
        score, p = ns, q
    if best is not None and bool(best[0] < score): m, r = best[1:]
    return m, r, n, 'maxiter'
def run(V, ck, f):
    if not V.symbolic: signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(30)
    try: return f()
    except EngineLimit as e:
        if 'step limit' not in str(e): raise
        ck.true(False, 'the loop ends within the iteration limit'); raise
    finally:
        if not V.symbolic: signal.alarm(0)
def limit(M):
    if M.symbolic: M._deconv._vm.MAXSTEPS = 30000
def kern(V, s, kd, peak):
    n = int(np.prod(s)); R = V.real if kd[0] == 'f' else V.cplx
    if peak == 'any': return V.typed('k', s, kd, lo=-2, hi=2)
    i0, v = peak
    return V.typed('k', s, kd, vals=V.arr([v if i == i0 else R('k%d' % i, -.7, .7) for i in range(n)]).reshape(s))
def against(shapes, kinds, its, peaks, areas, stops=(1, 0), pos=(0, 1), model=False):
    def f(M, V, ck):
        limit(M)
        s = V.choose('shape', shapes); kd = V.choose('kind', kinds); it = V.choose('maxiter', its); st = V.choose('stop', list(stops)); ps = V.choose('pos', list(pos)) if kd[0] == 'f' else 0
        n = int(np.prod(s)); res, mdl = V.typed('r', s, kd, lo=-10, hi=10), V.typed('m', s, kd, lo=-5, hi=5, **({} if model else {'vals': 0.}))
        ker = kern(V, s, kd, V.choose('peak', [p for p in peaks if p == 'any' or p[0] < n])); A = np.array([int(c) for c in V.choose('area', [a for a in areas if len(a) == n])]).reshape(s)
        ar = V.typed('area', s, 'int64', vals=A); R, K, Mo = vals(V, res), vals(V, ker), vals(V, mdl)
        if any(p == 'any' for p in peaks):
            for v in K.values(): V.assume(abs2(v) > EPS)
        kpeak(K); gain, tol = V.real('gain', .01, 2), V.real('tol', 0, .5)
        rv = run(V, ck, lambda: M._deconv.clean(res, ker, mdl, ar, gain=gain, maxiter=it, tol=tol, stop_if_div=st, pos_def=ps))
        m, r, c, why = clean(M, V, R, K, A, gain, it, tol, st, ps)
        ks = sorted(R); m1, r1 = vals(V, mdl), vals(V, res)
        ck.eq(rv, c, 'the number of iterations and the way of ending')
        ck.close([m1[i] for i in ks], [Mo[i] + m[i] for i in ks], 'the model gains gain times the strongest residual of the area in each step', tol=1e-5)
        ck.close([r1[i] for i in ks], [r[i] for i in ks], 'the residual loses what was added to the model', tol=1e-5)
        for i in ks:
            if not A[i]: ck.eq(m1[i], Mo[i], 'the model changes only inside the area')
        ck.guards(V, 'memory outside the arrays is untouched')
    return f
def anyarea(M, V, ck):
    """Areas with any integers: zero is outside, everything else inside."""
    limit(M)
    kd = V.choose('kind', ['float64', 'complex128']); s = V.choose('shape', [(2,), (2, 1)])
    r = V.real('r', .5, 10); res, mdl, ker = V.typed('r', s, kd, vals=V.arr([r, r / 2]).reshape(s)), V.typed('m', s, kd, vals=0.), V.typed('k', s, kd, vals=np.array([1., .125]).reshape(s))
    ar = V.typed('area', s, 'int64'); A = [V.pick(V.elem(ar, k), [0]) is None for k in np.ndindex(*s)]
    run(V, ck, lambda: M._deconv.clean(res, ker, mdl, ar, gain=.5, maxiter=2, tol=0., stop_if_div=1))
    m = list(vals(V, mdl).values())
    ck.eq(m[0], r / 2 if A[0] else 0, 'the strongest residual inside the area is taken'); ck.eq(m[1], r / 4 if A[1] and not A[0] else 0, 'the strongest residual inside the area is taken')
def nothing(M, V, ck):
    """Nothing to remove: the loop ends and nothing changes."""
    limit(M)
    s = V.choose('shape', [(1,), (2,), (2, 1)]); kd = V.choose('kind', ['float64', 'complex64', 'float32', 'complex128']); st = V.choose('stop', [1, 0]); n = V.choose('maxiter', [0, 1, 2, 5]); w = V.choose('what', ['zero', 'area', 'negative'])
    ps = 1 if w == 'negative' and kd[0] == 'f' else 0
    v = 0. if w == 'zero' else V.real('v', -9, -1); res, mdl = V.typed('r', s, kd, vals=v), V.typed('m', s, kd, lo=-3, hi=3); ker = V.typed('k', s, kd, vals=np.array([2., .5])[:int(np.prod(s))].reshape(s))
    ar = V.typed('area', s, 'int64', vals=0 if w == 'area' or w == 'negative' and not ps else 1); Mo = vals(V, mdl)
    rv = run(V, ck, lambda: M._deconv.clean(res, ker, mdl, ar, gain=.5, maxiter=n, tol=1e-9, stop_if_div=st, pos_def=ps))
    ck.true(abs(rv) <= n, 'no more iterations than allowed')
    for i, x in vals(V, mdl).items(): ck.eq(x, Mo[i], 'the model does not change')
    for i, x in vals(V, res).items(): ck.eq(x, v, 'the residual does not change')
def report(kinds, its, peaks):
    def f(M, V, ck):
        limit(M)
        s = V.choose('shape', [(2,), (1, 2)]); cx = V.choose('complex', kinds); it = V.choose('maxiter', its); st = V.choose('stop', [True, False]); ps = V.choose('pos', [False, True]) if not cx else False
        im = (V.carray if cx else V.array)('im', s, -10, 10); i0, v = V.choose('peak', peaks); K = (V.cplx if cx else V.real)('k', -.7, .7)
        ker = V.arr([v, K] if i0 == 0 else [K, v]).reshape(s) + (0j if cx else 0)
        ak = V.choose('area', ['none', 'bool', 'int', 'float']); A = np.array([[1, 1], [1, 0], [0, 7], [0, 1]][['none', 'bool', 'int', 'float'].index(ak)]).reshape(s)
        area = None if ak == 'none' else A.astype({'bool': bool, 'int': np.int64, 'float': float}[ak])
        gain, tol = V.real('gain', .01, 2), V.real('tol', 0, .5)
        keep = None if area is None else area.copy()
        m1, info = run(V, ck, lambda: M.deconv.clean(im, ker, area=area, gain=gain, maxiter=it, tol=tol, stop_if_div=st, pos_def=ps))
        m, r, c, why = clean(M, V, avals(im), avals(ker), A, gain, it, tol, st, ps); ks = sorted(r)
        m1, r1 = avals(m1), avals(info['res'])
        ck.close([m1[i] for i in ks], [m[i] for i in ks], 'the model gains gain times the strongest residual of the area in each step', tol=1e-5)
        ck.close([r1[i] for i in ks], [r[i] for i in ks], 'the residual that is left', tol=1e-5)
        ck.eq(info['term'], why, 'the reported reason'); ck.eq(info['iter'], abs(c), 'the reported number of iterations'); ck.true(info['iter'] <= it, 'no more iterations than allowed')
        ck.eq(bool(info['success']), why == 'tol', 'success means converged'); ck.eq(info['tol'], tol, 'the tolerance is reported')
        ck.eq(info['score'], rt(M, sum(abs2(v) for v in r1.values()) / len(r1)), 'the score is the rms of the residual')
        if keep is not None: ck.eq(list(area.flat), list(keep.flat), 'the area is not modified')
    return f
def defaults(M, V, ck):
    """Default settings: converges on an isolated source, stops on divergence."""
    a = V.choose('amp', [1., -3., 2j]); n = V.choose('n', [3, 4]); im = np.zeros(n, dtype=complex if isinstance(a, complex) else float); im[1] = a; k = np.zeros(n, dtype=im.dtype); k[0] = 2
    if V.symbolic: return
    m, info = M.deconv.clean(im, k)
    ck.true(info['success'] and info['term'] == 'tol' and 0 < info['iter'] < 10000, 'converges'); ck.le(abs(m[1] - a / 2), .05, 'the source is found')
O = dict(stubs=ST, max_paths=3000, branch_ms=0, budget=(150, 900))
A2, A3, A4 = ['11', '10', '01'], ['111', '101', '010'], ['1001', '0110']
F, C = ['float64'], ['complex128']
SCENARIOS = [
    Scenario('one step, any kernel', against([(2,)], F, [2], ['any'], A2), **O),
    Scenario('one step, any complex kernel', against([(2,)], C, [2], ['any'], ['11', '01']), **O),
    Scenario('one step, three pixels', against([(3,), (1, 3)], F, [2], [(0, 1.)], A3[1:]), **O),
    Scenario('one step, three pixels, complex', against([(3,)], C, [2], [(0, 1.)], ['110', '011'], stops=(1,)), **O),
    Scenario('one step, two by two', against([(2, 2)], F, [2], [(0, 1.), (2, -2.)], A4), **O),
    Scenario('one step, two by two, complex', against([(2, 2)], C, [2], [(1, 1.)], A4[:1], stops=(1,)), **O),
    Scenario('one step, single precision', against([(2,), (1, 2)], ['float32', 'complex64'], [2], [(0, 1.)], ['11'], pos=(0,), model=True), **O),
    Scenario('limits', against([(1,), (2,)], F, [0, 1], ['any'], ['1', '0', '11', '10'], model=True), **O),
    Scenario('two steps', against([(2,)], F, [3], [(0, 1.)], A2[:2], model=True), **O),
    Scenario('two steps, columns', against([(2, 1)], F, [3], [(1, -2.)], ['11']), **O),
    Scenario('two steps, complex', against([(2,)], C, [3], [(0, 1.)], ['11'], stops=(0,)), **O),
    Scenario('two steps, complex columns', against([(1, 2)], C, [3], [(0, 1.)], ['10', '01']), **O),
    Scenario('three steps', against([(2,)], F, [4], [(0, 1.)], ['10', '01'], pos=(0,)), **O),
    Scenario('any area', anyarea, **O), Scenario('nothing', nothing, **O),
    Scenario('report', report([0], [2], [(0, 1.)]), **O), Scenario('report, complex', report([1], [2], [(1, -2.)]), **O), Scenario('report, limits', report([0, 1], [0, 1], [(0, 1.)]), **O),
    Scenario('defaults', defaults, **O),
]
