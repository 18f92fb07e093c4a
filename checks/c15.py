from vlib.harness import Scenario
from checks.common import *
from vlib import snp, sym
BOUNDS = 'real images and kernels of 2x2, 1x4 and 1x2 pixels for one step, of 1x2 pixels for up to 2 steps (3 for annealing), with any values, any limits, gains and perturbations; starting models given or default'
OUTSIDE = 'larger images, more steps, how well a deconvolution converges, complex images'
EXPLANATION = 'lsq, maxent and anneal executed on symbolic images, kernels, models and limits; the random perturbations of annealing are solver variables; the Fourier transforms are exact for these sizes.'
class _R:
    """np.random with arbitrary draws."""
    def __getattr__(self, n):
        def draw(*a, **k):
            size = k.get('size'); size = a[2] if size is None and len(a) > 2 else size
            E = sym.CUR
            def one():
                E.ndraw = getattr(E, 'ndraw', 0) + 1
                return E.input('rnd%d' % E.ndraw, lo=-5, hi=5)
            if size is None: return one()
            r = np.empty(size, dtype=object)
            for i in np.ndindex(r.shape): r[i] = one()
            return r.view(snp.SArr)
        if n in ('normal', 'standard_normal', 'randn', 'uniform', 'random', 'rand'): return draw
        raise sym.EngineLimit('numpy.random.' + n)
S = dict(FPI); S['numpy'] = snp.ModShim(np, dict(snp.numpy_fpi._over, random=_R()))
SHAPES = [(2, 2), (1, 2), (1, 4)]
def conv(x, k):
    r = np.empty(x.shape, dtype=object); n, m = x.shape
    for i, j in np.ndindex(n, m):
        t = 0
        for p, q in np.ndindex(n, m): t = t + x[p, q] * k[(i - p) % n, (j - q) % m]
        r[i, j] = t
    return r
def setup(M, V, model=True, n=1):
    s = V.choose('shape', SHAPES if n == 1 else SHAPES[1:2]); im = V.array('im', s, -10, 10); ker = V.array('k', s, -2, 2); mdl = V.array('m', s, -10, 10) if model else None
    if not M.symbolic and abs(np.sum(np.abs(ker))) < .1: ker = ker + .5
    return s, im, ker, mdl
def limits(V):
    k = V.choose('limits', ['default', 'both', 'lower', 'tight'])
    if k == 'default': return {}, 0, None
    lo = V.real('lo', -5, 5)
    if k == 'lower': return {'lower': lo}, lo, None
    if k == 'tight': return {'lower': lo, 'upper': lo}, lo, lo
    hi = V.real('hi', -5, 5); V.assume(lo <= hi); return {'lower': lo, 'upper': hi}, lo, hi
def bounded(ck, x, lo, hi, msg):
    for v in np.asarray(x).flat:
        ck.ge(v, lo, msg + ': not below the lower limit')
        if hi is not None: ck.le(v, hi, msg + ': not above the upper limit')
def same(ck, pairs):
    for a, b in pairs:
        if a is not None: ck.eq(list(np.asarray(a).flat), list(np.asarray(b).flat), 'inputs are not modified')
def keepcopy(*a): return [None if x is None else x.copy() for x in a]
def residual(ck, im, x, ker, res):
    c = conv(np.asarray(x), np.asarray(ker)); ck.shape(res, im.shape, 'residual image')
    if np.shape(res) == im.shape: ck.close([v for v in np.asarray(res).flat], [im[i] - c[i] for i in np.ndindex(im.shape)], 'the residual is the image minus the model convolved with the kernel')

def lsq(M, V, ck):
    n = V.choose('maxiter', [1, 2]); s, im, ker, mdl = setup(M, V, V.choose('mdl', [False, True]), n); lim, lo, hi = limits(V)
    for v in np.asarray(im).flat: V.assume(v != 0)
    area = None if V.choose('area', [0, 1]) else np.ones(s)
    keep = keepcopy(im, ker, mdl, area); tol = V.real('tol', 0, .5)
    x, info = M.deconv.lsq(im, ker, mdl=mdl, area=area, gain=V.real('gain', .01, 1), tol=tol, maxiter=n, **lim)
    same(ck, zip((im, ker, mdl, area), keep)); ck.shape(x, s, 'model image')
    ck.true(1 <= info['iter'] <= n, 'number of steps within the limit'); ck.true(info['term'] in ('tol', 'maxiter'), 'a known reason to stop')
    stepped = info['term'] == 'maxiter' or info['iter'] > 1
    if stepped: bounded(ck, x, lo, hi, 'least squares')
    else: ck.eq(list(np.asarray(x).flat), [0] * im.size if mdl is None else list(np.asarray(mdl).flat), 'no step, no change')
    residual(ck, im, x, ker, info['res'])
def maxent(M, V, ck):
    n = V.choose('maxiter', [1, 2]); s, im, ker, mdl = setup(M, V, True, n); lim, lo, hi = limits(V)
    mdl = V.arr([V.real('pm%d' % i, .1, 10) for i in range(im.size)]).reshape(s)
    if lim: V.assume(lo > 0)
    keep = keepcopy(im, ker, mdl); 
    x, info = M.deconv.maxent(im, ker, V.real('var', .01, 5), mdl=mdl, gain=V.real('gain', .01, 1), tol=V.real('tol', 0, .5), maxiter=n, **lim)
    same(ck, zip((im, ker, mdl), keep)); ck.shape(x, s, 'model image'); ck.true(1 <= info['iter'] <= n, 'number of steps within the limit')
    if info['term'] == 'maxiter' or info['iter'] > 1: bounded(ck, x, lo, hi, 'maximum entropy')
    else: ck.eq(list(np.asarray(x).flat), list(np.asarray(mdl).flat), 'no step, no change')
    residual(ck, im, x, ker, info['res'])
def anneal(M, V, ck):
    n = V.choose('maxiter', [1, 2, 3]); s, im, ker, mdl = setup(M, V, V.choose('mdl', [False, True]), n); lim, lo, hi = limits(V)
    if not M.symbolic: np.random.seed(V.int('seed', 0, 10**6))
    keep = keepcopy(im, ker, mdl); c = V.array('cool', s, 0, 3); calls = []
    def cooling(i, x): calls.append(i); return c
    q = V.choose('cooling', ['given', 'default'])
    for v in [sum(k * k for k in np.asarray(ker).flat)]: V.assume(v > .01)
    x, info = M.deconv.anneal(im, ker, mdl=mdl, maxiter=n, **(dict(lim, cooling=cooling) if q == 'given' else lim))
    same(ck, zip((im, ker, mdl), keep)); ck.shape(x, s, 'model image'); ck.eq(info['iter'], n, 'all steps are made')
    m0 = mdl if mdl is not None else (np.zeros(s))
    moved = x is not mdl
    def msq(m):
        c = conv(np.asarray(m), np.asarray(ker)); return sum((im[i] - c[i])**2 for i in np.ndindex(im.shape))
    residual(ck, im, x, ker, info['res'])
    ck.le(info['score'] * im.size, msq(m0), 'the score never gets worse than that of the starting model')
    ck.close(sum(v * v for v in np.asarray(info['res']).flat), info['score'] * im.size, 'the score is that of the residual')
    same0 = all(x[i] is m0[i] or not sym.is_sym(x[i]) and x[i] == m0[i] for i in np.ndindex(*s)) if M.symbolic else bool(np.all(x == m0))
    if not same0: bounded(ck, x, lo, hi, 'annealing')
    if mdl is not None: ck.eq(list(np.asarray(mdl).flat), list(np.asarray(keep[2]).flat), 'the starting model is kept')
def findvar(M, V, ck):
    """The front end returns what maxent found; the variance search ends."""
    def fake(im, ker, v, **k): seen.append((v, k)); return im * 0 + v, {'success': True, 'term': 'tol', 'res': im, 'score': 0}
    seen = []; s, im, ker, mdl = setup(M, V, False); orig = M.deconv.maxent
    for v in np.asarray(im).flat: V.assume(v != 0)
    M.deconv.maxent = fake
    try:
        given = V.choose('given', [True, False]); var = V.real('var', .1, 5)
        x, info = M.deconv.maxent_findvar(im, ker, var=var if given else None, maxiter=4, gain=.1, tol=.1)
        ck.eq(len(seen), 1, 'a converged fit ends the search'); ck.eq(list(np.asarray(x).flat), [seen[0][0]] * im.size, 'the converged model is returned')
        if given: ck.eq(seen[0][0], var, 'the variance asked for is used')
    finally: M.deconv.maxent = orig
def recenter(M, V, ck):
    n, m = V.choose('n', [1, 2, 3]), V.choose('m', [1, 3, 4]); a = V.array('a', (n, m)); c = (V.cint('c0', -4, 4), V.cint('c1', -4, 4)); r = M.deconv.recenter(a, c)
    ck.shape(r, (n, m), 'shape kept')
    for i, j in np.ndindex(n, m): ck.eq(r[i, j], a[(i + c[0]) % n, (j + c[1]) % m], 'each pixel moves by the centre')
SCENARIOS = [Scenario('lsq', lsq, stubs=S, max_paths=200), Scenario('maxent', maxent, stubs=S, max_paths=200), Scenario('anneal', anneal, stubs=S, max_paths=300), Scenario('findvar', findvar, stubs=S), Scenario('recenter', recenter, stubs=S, max_paths=1000)]
