from vlib.harness import Scenario
from checks.common import *
from vlib import sym
BOUNDS = 'sequences of 4 to 8 samples of any real values, factors 1 to 6, filter orders 3 to 6, the default filter and other filters; windows of length 2 to 40, at every index and every real position between'
OUTSIDE = 'order 2 (the boundary parabola is not determined), complex samples, windows of length 1, Bessel-function windows (kaiser)'
EXPLANATION = 'interpolate, subsample and polyextend executed on symbolic samples (the fit of the boundary parabola is solved exactly); window formulas executed at a symbolic position.'
def ext(y, n):
    """Exact quadratic extension by least squares."""
    from fractions import Fraction as Q
    def fit(xs, ys, at):
        A = [[Q(x)**p for p in (2, 1, 0)] for x in xs]
        N = [[sum(r[i] * r[j] for r in A) for j in range(3)] for i in range(3)]; 
        out = []
        I = inv3(N)
        for x in at:
            w = [sum(Q(x)**(2 - i) * I[i][j] * A[k][j] for i in range(3) for j in range(3)) for k in range(len(xs))]
            out.append(sum(ys[k] * (w[k] if sym.is_sym(ys[k]) else float(w[k])) for k in range(len(xs))))
        return out
    return fit(range(n), y[:n], range(-n, 0)) + list(y) + fit(range(-n + 1, 1), y[-n:], range(1, n + 1))
def inv3(m):
    (a, b, c), (d, e, f), (g, h, i) = m
    D = a*(e*i-f*h) - b*(d*i-f*g) + c*(d*h-e*g)
    return [[(e*i-f*h)/D, (c*h-b*i)/D, (b*f-c*e)/D], [(f*g-d*i)/D, (a*i-c*g)/D, (c*d-a*f)/D], [(d*h-e*g)/D, (b*g-a*h)/D, (a*e-b*d)/D]]
def deflt(xs):
    i = np.arange(xs.size) / xs.size * 2 * np.pi
    return (1 - np.cos(i)) * np.sinc(.25 * xs)
def tri(xs): return np.maximum(0, 1 - np.abs(np.asarray(xs, dtype=float)))          # linear interpolation
def oversample(M, V, ck):
    """Against the definition: weighted mean of the extended samples under the filter."""
    n = V.choose('n', [5, 7]); f = V.choose('f', [1, 2, 3, 6]); o = V.choose('o', [4, 3]); 
    which = V.choose('which', ['default', 'tri'])
    y = V.array('y', (n,), -10, 10); keep = list(y)
    r = (M.interp.interpolate(y, f) if o == 4 else M.interp.interpolate(y, f, order=o)) if which == 'default' else M.interp.interpolate(y, f, filter=tri, order=o)
    ck.eq(len(r), n * f, 'factor values per input step'); ck.eq(list(y), keep, 'samples are left alone')
    if len(r) != n * f: return
    e = ext(keep, o); xs = np.arange(-o * f, o * f + 1) / float(f); w = (deflt if which == 'default' else tri)(xs)
    for k in range(n * f):
        num, den = 0, 0.
        for t in range(2 * o * f + 1):
            p = k + t                        # position in the extended, zero-stuffed sequence
            if p % f == 0: num = num + e[p // f] * float(w[2*o*f - t]); den += float(w[2*o*f - t])
        ck.close(r[k] * den, num, 'weighted mean of the neighbouring samples', tol=1e-6)
    if which == 'tri': ck.close(list(r[::f]), keep, 'an interpolating filter reproduces the samples at their positions')
def const_linear(M, V, ck):
    n = V.choose('n', [6, 8]); f = V.choose('f', [2, 4, 5, 6]); o = V.choose('o', [4, 6]); c = V.real('c', -10, 10)
    r = M.interp.interpolate(V.arr([c] * n), f, order=o); ck.eq(len(r), n * f, 'length'); ck.close(list(r), [c] * (n * f), 'a constant sequence is unchanged')
    y, z, s = V.array('y', (n,), -10, 10), V.array('z', (n,), -10, 10), V.real('s', -3, 3)
    a, b, t = [M.interp.interpolate(q, f, order=o) for q in (y, z, y + s * z)]
    ck.eq(len(a), n * f, 'length')
    if len(a) == len(b) == len(t) == n * f: ck.close(list(t), [a[k] + s * b[k] for k in range(n * f)], 'linear in the samples')
def extension(M, V, ck):
    n = V.choose('n', [4, 6, 7]); m = V.choose('m', [3, 4]); y = V.array('y', (n,), -10, 10); e = M.interp.polyextend(y, m)
    ck.eq(len(e), n + 2 * m, 'extended at both ends'); ck.eq(list(e[m:m + n]), list(y), 'the samples are kept in the middle')
    ck.close(list(e), ext(list(y), m), 'ends continue the best-fitting parabola')
    a, b, c = V.real('a', -2, 2), V.real('b', -2, 2), V.real('c', -2, 2); q = V.arr([a * k * k + b * k + c for k in range(n)])
    ck.close(list(M.interp.polyextend(q, m)), [a * k * k + b * k + c for k in range(-m, n + m)], 'a parabola is continued exactly')
def stuffing(M, V, ck):
    n = V.choose('n', [1, 3, 4]); f = V.choose('f', [1, 2, 5]); y = V.array('y', (n,)); s, w = M.interp.subsample(y, f)
    ck.eq(len(s), n * f, 'length'); ck.eq(list(s), [y[k // f] if k % f == 0 else 0 for k in range(n * f)], 'samples at every factor-th place, zero between'); ck.eq([float(v) for v in w], [1. if k % f == 0 else 0. for k in range(n * f)], 'weight one at samples')

FORM = {'blackman': (.42, -.5, .08, 0), 'blackman-harris': (.35875, -.48829, .14128, -.01168), 'hamming': (.54, -.46, 0, 0), 'hanning': (.5, -.5, 0, 0)}
def window_formula(M, V, ck):
    """Cosine-family windows at any real position."""
    name = V.choose('w', sorted(FORM)); L = V.cint('L', 2, 40); u = V.real('u', 0, 1); W = M.dsp.WINDOW_FUNC[name]; pi = M.np.pi
    x = u * (L - 1); t = 2 * pi * u
    v = W(V.arr([x]), L)[0]; c = FORM[name]; cos = M.np.cos
    ref = c[0] + c[1] * cos(t) + c[2] * cos(2 * t) + c[3] * cos(3 * t)
    ck.close(v, ref, 'the defining cosine sum')
    m = W(V.arr([L - 1 - x]), L)[0]
    ck.close(m, v, 'symmetric about the middle')
    ck.le(v, 1 + 1e-9, 'bounded by one')
def windows(M, V, ck):
    """Every window at its indices."""
    name = V.choose('w', ['blackman', 'blackman-harris', 'gaussian0.4', 'hamming', 'hanning', 'parzen', 'none', 'tukey', 'barthann']); L = V.cint('L', 2, 40)
    r = M.dsp.gen_window(L, window=name); ck.shape(r, (L,), 'L values')
    if np.shape(r) != (L,): return
    if name in FORM:
        c = FORM[name]
        for k in range(L):
            t = 2 * np.pi * k / (L - 1); ck.close(num(M, r[k]), c[0] + c[1] * np.cos(t) + c[2] * np.cos(2*t) + c[3] * np.cos(3*t), 'the defining cosine sum')
    if name not in ('parzen',):
        ck.close([num(M, v) for v in r], [num(M, v) for v in r[::-1]], 'symmetric')
    for k in range(L): ck.le(num(M, r[k]), 1 + 1e-9, 'bounded by one')
    if name == 'tukey':
        w = int(np.floor(.5 * (L - 1) / 2.))
        for k in range(L):
            d = min(k, L - 1 - k); ck.close(num(M, r[k]), 1 if d > w else .5 * (1 + np.cos(np.pi * (-1 + 4. * d / (L - 1)))), 'tapered cosine')
    if name == 'barthann':
        for k in range(L):
            d = abs(k / (L - 1.) - .5); ck.close(num(M, r[k]), .62 - .48 * d + .38 * np.cos(2 * np.pi * d), 'Bartlett-Hann formula')
def num(M, v): return float(v.cval()) if isinstance(v, sym.SymN) else float(v)
def tukey_alpha(M, V, ck):
    L = V.cint('L', 2, 12); a = V.choose('alpha', [0, .25, .8, 1, 1.5]); r = M.dsp.gen_window(L, window='tukey', alpha=a); ck.shape(r, (L,), 'L values')
    if np.shape(r) != (L,): return
    r = [num(M, v) for v in r]
    if a == 0: ck.close(r, [1.] * L, 'no taper')
    elif a >= 1: ck.close(r, [.5 - .5 * np.cos(2 * np.pi * k / (L - 1)) for k in range(L)], 'Hann')
    ck.close(r, r[::-1], 'symmetric')
SCENARIOS = [Scenario(g.__name__, g, stubs=FPI, max_paths=800) for g in (oversample, const_linear, extension, stuffing, windows, tukey_alpha)] + [Scenario('window_formula', window_formula, stubs=STUBS, max_paths=800)]
