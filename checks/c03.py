from vlib.harness import Scenario
from checks.uvlib import *
BOUNDS = 'records of 1 and 2 channels and sequences of up to 3 records; every real and imaginary part of any sign with the largest magnitude of a record between 1e-25 and 1e30 at every place, or all zero; every flag; coordinates and times any finite doubles'
OUTSIDE = 'longer spectra, magnitudes outside that range, infinities and NaN; rounding of the single-precision scale is allowed for by 1% of the bound'
EXPLANATION = 'The LLVM IR of the compiled module and the executed miriad.py write a record with 16-bit storage and read it back on an in-memory file system; channel values are real variables, the stored numbers integer variables.'
N = 'a.uv'
T0 = 2455000.5
def chans(V, name, n, zero=False, tied=False, which=None):
    """n channels; one part has the largest magnitude, every other one is a fraction of it."""
    if V.symbolic: ir.collapse = True
    if zero: xs, big = [0.] * (2 * n), 0.
    else:
        at, s = (V.choose(name + 'largest', list(range(2 * n))), V.choose(name + 'sign', [1, -1])) if which is None else which
        big = V.real(name + 'size', 1e-25, 1e30)
        tie = V.choose(name + 'other', [None, 1., -1.]) if n == 1 and tied else None
        r = [1. if q == at else V.real('%s%d' % (name, q), -1, 1) if tie is None else tie for q in range(2 * n)]
        for q in range(2 * n):
            if q != at and tie is None: V.assume(r[q] < 1); V.assume(r[q] > -1)
        xs = [big * s if q == at else r[q] * big for q in range(2 * n)]
    if V.symbolic:
        t = cdrv.tarr_like((n,), 'complex64', name='spectrum')
        for k in range(n): t.set((k,), (xs[2*k], xs[2*k+1]))
        return t, xs, big
    a = np.array(xs, dtype=np.float32)
    return a.view(np.complex64), [float(x) for x in a], big
def parts(d):
    if isinstance(d, mir.TMa): d = d.data
    out = []
    for k in range(d.shape[0]):
        v = d.get((k,)) if isinstance(d, cdrv.TArr) else complex(np.ma.getdata(d)[k])
        v = (v.re, v.im) if isinstance(v, sym.SymC) else v if isinstance(v, tuple) else (v.real, v.imag)
        out += list(v)
    return out
def near(V, ck, xs, ys, big):
    ck.true(len(xs) == len(ys), 'number of channels')
    for x, y in zip(xs, ys):
        for e in (y - x, x - y): ck.true(e <= big * (1.01 / 32767), 'error of a channel is within one part in 32767 of the largest')
def put(V, box, k, kind, m, ant=(0, 1), which=None, exact=False):
    d, v, big = chans(V, 'd%d_' % k, len(m), zero=kind == 'zero', tied=kind == 'tied', which=which)
    u = [dbl(V, 'u%d_%d' % (k, c)) for c in range(3)] if exact else [fixed(1. + c) for c in range(3)]
    t = dbl(V, 't%d' % k) if exact else fixed(T0 + k)
    box[0].write((f64arr(V, [x[0] for x in u]), t[0], ant), masked(V, d, m))
    return v, big, u, t, m, ant
def get(V, ck, box, rec):
    v, big, u, t, m, ant = rec
    (uvw, tt, (i, j)), d = box[0].read()
    near(V, ck, v, parts(d), big)
    for a, b in zip(flags(d), m): ck.eq(a, b, 'flag')
    ck.eq(i, ant[0], 'first antenna'); ck.eq(j, ant[1], 'second antenna')
    for x, y in zip(elems(uvw), u): ck.true(sameval(b64(x), y[1]), 'coordinates')
    ck.true(sameval(b64(tt), t[1]), 'time')
def single(M, V, ck):
    i = V.choose('i', [0, 3])
    box = opened(M, N, status='new', corrmode='j')
    r = put(V, box, 0, 'tied', mask(V, 'm', 1), (i, 3)); close(box)
    box = opened(M, N); get(V, ck, box, r); close(box)
def preamble(M, V, ck):
    box = opened(M, N, status='new', corrmode='j')
    r = put(V, box, 0, V.choose('kind', ['any', 'zero']), mask(V, 'm', 2), which=(0, 1), exact=True); close(box)
    box = opened(M, N); get(V, ck, box, r); close(box)
def channels(M, V, ck):
    n = 2; at = V.choose('at', [0, 1, 2, 3])
    box = opened(M, N, status='new', corrmode='j')
    r = put(V, box, 0, 'any', [False, True, False][:n], which=(at, -1 if at % 2 else 1)); close(box)
    box = opened(M, N); get(V, ck, box, r); close(box)
def several(M, V, ck):
    box = opened(M, N, status='new', corrmode='j')
    kinds = V.choose('records', [('any', 'any'), ('zero', 'any'), ('any', 'zero'), ('zero', 'zero'), ('any', 'zero', 'any')])
    rs = [put(V, box, k, x, [k == 1], which=((k + 1) % 2, 1 - 2 * (k % 2))) for k, x in enumerate(kinds)]; close(box)
    box = opened(M, N)
    for r in rs: get(V, ck, box, r)
    close(box)
O = dict(stubs=ST, max_paths=600, branch_ms=2000, budget=(200, 900))
SCENARIOS = [Scenario(f.__name__, f, **O) for f in (single, preamble, channels, several)]
