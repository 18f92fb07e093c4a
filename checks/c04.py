from vlib.harness import Scenario
from checks.uvlib import *
BOUNDS = 'every flag pattern of a single record of up to 66 channels; sequences of 2 to 4 records whose lengths make them straddle the 31-bit words, every pattern; records around the 3968-channel buffer with every pattern in the last and first 8 channels; writing in two sessions (append), both storage modes; unset memory of zeros and of other values'
OUTSIDE = 'spectra longer than 4000 channels, more than 4 records'
EXPLANATION = 'The LLVM IR of the compiled module (wrapper, uvio.c, maskio.c, hio.c, pack.c) and the executed miriad.py write and read a data set on an in-memory file system; every flag is a Boolean variable.'
EXACT_BITS = True
N = 'a.uv'
U0, T0 = [0., 0., 0.], 2455000.5
def write(box, V, m, k=0, how='mask'):
    n = len(m); d = np.zeros(n, dtype=np.complex64); d[0] = k + 1
    p = (np.array(U0), T0 + k, (0, 1))
    if how == 'mask': box[0].write(p, masked(V, d, m))
    elif V.symbolic:
        o = np.empty(n, dtype=object)
        for q, x in enumerate(m): o[q] = x
        box[0].write(p, d, o.view(mir.BArr))
    else: box[0].write(p, d, np.array(m, dtype=bool))
def same(ck, d, m, what='flags as written'):
    f = flags(d)
    ck.true(len(f) == len(m), 'number of flags')
    for a, b in zip(f, m): ck.eq(a, b, what)
def readall(M, V, ck, ms, again=False):
    box = opened(M, N)
    for r in range(2 if again else 1):
        for m in ms:
            try: p, d = box[0].read()
            except IOError: ck.true(False, 'a record is missing'); return
            same(ck, d, m, 'flags as written' if not r else 'flags after rewinding')
        ck.raises(IOError, lambda: box[0].read(), 'no record after the last one')
        if again: box[0].rewind()
    close(box)
def memory(V): ir.FILL = V.choose('memory', [0xA5, 0])
def patterns(M, V, ck):
    memory(V)
    n = V.choose('n', [1, 2, 7, 30, 31, 32, 33, 61, 62, 63, 66]); mode = V.choose('corrmode', ['r', 'j'])
    if n > 33 and mode == 'j': return
    m = mask(V, 'm', n)
    box = opened(M, N, status='new', corrmode=mode); write(box, V, m); close(box)
    readall(M, V, ck, [m], again=n < 33)
def history(M, V, ck):
    memory(V)
    ns = V.choose('lengths', [(3, 29), (31, 2), (1, 31, 1), (30, 3, 30), (17, 16, 4), (2, 40, 5), (40, 2, 33), (5, 5, 5, 5), (20, 1, 20, 1)])
    ms = [mask(V, 'm%d_' % k, n) for k, n in enumerate(ns)]
    box = opened(M, N, status='new')
    for k, m in enumerate(ms): write(box, V, m, k, 'flags' if k % 2 else 'mask')
    close(box)
    readall(M, V, ck, ms, again=len(ns) == 2)
def append(M, V, ck):
    """A second session continues in the middle of a storage word."""
    memory(V)
    ns = V.choose('lengths', [(3, 4), (31, 3), (30, 33), (40, 2)])
    ms = [mask(V, 'm%d_' % k, n) for k, n in enumerate(ns)]
    box = opened(M, N, status='new'); write(box, V, ms[0]); close(box)
    box = opened(M, N, status='append'); write(box, V, ms[1], 1); close(box)
    readall(M, V, ck, ms)
def buffers(M, V, ck):
    """Flags around the end of the buffer (128 words of 31)."""
    ns = V.choose('lengths', [(3976,), (3960, 20), (3967, 5), (3968, 5), (3930, 62, 9)])
    ms = []
    for k, n in enumerate(ns):
        s = mask(V, 'm%d_' % k, 16 if n > 100 else n)
        if n > 100: s = s[:4] + [(q * q // 7) % 3 == 0 for q in range(n - 16)] + s[4:]
        ms.append(s)
    box = opened(M, N, status='new')
    for k, m in enumerate(ms): write(box, V, m, k)
    close(box)
    readall(M, V, ck, ms)
def unmasked(M, V, ck):
    """Masked arrays whose mask is not an array."""
    n = V.choose('n', [1, 3])
    d, b = spectrum(V, 'd', n)
    box = opened(M, N, status='new')
    m = mask(V, 'm', n)
    box[0].write((np.array(U0), T0, (0, 1)), masked(V, d, m))
    d, b = spectrum(V, 'e', n)
    box[0].write((np.array(U0), T0 + 1, (0, 1)), mir.ma_array(d) if V.symbolic else np.ma.array(d)); close(box)
    box = opened(M, N)
    p, d = box[0].read(); same(ck, d, m)
    p, d = box[0].read(); same(ck, d, [False] * n, 'no channel is flagged where none was')
    for x, y in zip(sbits(d), b): ck.bits(x, y, 'channel values bit for bit')
    close(box)
O = dict(stubs=ST, max_paths=400, branch_ms=0, budget=(150, 900))
SCENARIOS = [Scenario(f.__name__, f, **O) for f in (patterns, history, append, buffers, unmasked)]
