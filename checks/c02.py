from vlib.harness import Scenario
from checks.uvlib import *
BOUNDS = 'up to 3 records of up to 3 channels, record lengths that grow and shrink; every bit pattern of every channel, coordinates and times any finite doubles, antennas 0 to 2046'
OUTSIDE = 'longer sequences and spectra, coordinates that are not finite'
EXPLANATION = 'The LLVM IR of the compiled module (wrapper, uvio.c, hio.c, pack.c, maskio.c) and the executed miriad.py write a data set to an in-memory file system and read it back; channel values are 32-bit vectors.'
EXACT_BITS = True
N = 'a.uv'
def write(V, box, k, n, ant, uvw=None, t=None, m=None, name='d'):
    d, b = spectrum(V, '%s%d_' % (name, k), n)
    u = [dbl(V, 'u%d_%d' % (k, c)) for c in range(3)] if uvw is None else uvw
    tt = dbl(V, 't%d' % k) if t is None else t
    box[0].write((f64arr(V, [x[0] for x in u]), tt[0], ant), masked(V, d, [False] * n if m is None else m))
    return dict(bits=b, uvw=[x[1] for x in u], t=tt[1], ant=ant)
def check(V, ck, rec, got):
    (uvw, t, (i, j)), d = got
    ck.true(len(d) == len(rec['bits']) // 2, 'number of channels')
    for x, y in zip(sbits(d), rec['bits']): ck.bits(x, y, 'channel values bit for bit')
    for x, y in zip(elems(uvw), rec['uvw']): ck.true(sameval(b64(x), y), 'coordinates')
    ck.true(sameval(b64(t), rec['t']), 'time')
    ck.eq(i, rec['ant'][0], 'first antenna'); ck.eq(j, rec['ant'][1], 'second antenna')
def readall(M, V, ck, recs):
    box = opened(M, N)
    for r in recs:
        try: got = box[0].read()
        except IOError: ck.true(False, 'a record is missing'); return
        check(V, ck, r, got)
    ck.raises(IOError, lambda: box[0].read(), 'no record after the last one')
    close(box)
CO = [fixed(1.), fixed(-2.), fixed(3.)]
def single(M, V, ck):
    n = V.choose('nchan', [1, 2, 3])
    box = opened(M, N, status='new')
    i, j = V.int('i', 0, 2046), V.int('j', 0, 2046)
    r = write(V, box, 0, n, (i, j))
    close(box)
    readall(M, V, ck, [r])
def history(M, V, ck):
    """Coordinates and times that may or may not change between records."""
    box = opened(M, N, status='new')
    which = V.choose('which', ['t', 'u', 'v', 'w', 'tu', 'vw'])
    def one(k):
        c = list(CO); t = fixed(2455000.5)
        for q, a in enumerate('uvw'):
            if a in which: c[q] = dbl(V, '%s%d' % (a, k))
        if 't' in which: t = dbl(V, 't%d' % k)
        return write(V, box, k, 1, (0, 1), uvw=c, t=t)
    recs = [one(k) for k in range(3 if which in ('u', 'v', 'w') else 2)]
    close(box)
    readall(M, V, ck, recs)
def antennas(M, V, ck):
    box = opened(M, N, status='new')
    recs = []
    for k in range(2):
        i, j = V.int('i%d' % k, 0, 2046), V.int('j%d' % k, 0, 2046)
        recs.append(write(V, box, k, 1, (i, j), uvw=CO, t=fixed(2455000.5)))
    close(box)
    readall(M, V, ck, recs)
def lengths(M, V, ck):
    """Records of different lengths."""
    ns = V.choose('nchans', [(1, 2), (2, 1), (2, 1, 2), (1, 1, 3), (3, 2)])
    box = opened(M, N, status='new'); recs = []
    for k, n in enumerate(ns): recs.append(write(V, box, k, n, (0, k), uvw=CO, t=fixed(2455000.5)))
    close(box)
    readall(M, V, ck, recs)
O = dict(stubs=ST, max_paths=1200, branch_ms=0, budget=(200, 900))
SCENARIOS = [Scenario(f.__name__, f, **O) for f in (single, history, antennas, lengths)]
