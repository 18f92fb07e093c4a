from vlib.harness import Scenario
from checks.uvlib import *
BOUNDS = 'text of up to 70 characters, arrays of up to 20 numbers (the 64-byte limit of the small-item cache is crossed) and one of 2056 with every value of the numbers around the end of the 16384-byte buffer, every ASCII character, every 16, 32 and 64-bit integer, every finite single and double-precision number; items rewritten longer and shorter, in one session and in two'
OUTSIDE = 'longer items; text beyond ASCII is covered by fixed samples'
EXPLANATION = 'The LLVM IR of the compiled module and the executed miriad.py write header items on an in-memory file system and read them back; characters and numbers are bit-vectors, and the stored bytes are compared with the big-endian bytes of the number.'
EXACT_BITS = True
N = 'a.uv'
def record(box): box[0].write((np.array([1., 2., 3.]), 2455000.5, (0, 1)), np.ma.array(np.zeros(1, dtype=np.complex64), mask=[False]))
ITEMS = {'i': ('ngains', 4), 'd': ('interval', 8), 'c': ('leakage', 8)}
def values(V, t, n, name='x'):
    """Values, and their bits."""
    if t == 'i': xs = [i32(V, '%s%d' % (name, k)) for k in range(n)]; return xs, xs
    f = {'d': dbl, 'c': cplx}[t]
    r = [f(V, '%s%d' % (name, k)) for k in range(n)]
    return [x for x, _ in r], [b for _, b in r]
def agree(V, ck, t, got, bits, what):
    if len(bits) == 1: got = [got]
    ck.true(len(got) == len(bits), what + ': length')
    for g, b in zip(got, bits):
        if t == 'i': ck.bits(g if ir.isbv(g) else int(g), b, what) if not isinstance(g, sym.SymN) else ck.eq(g, b, what)
        elif t == 'd': ck.bits(b64(g), b, what)
        else:
            for p, q in zip(cparts(g), b): ck.bits(fbits(p), q, what)
def code(t): return {'i': [0, 0, 0, 2], 'd': [0, 0, 0, 5], 'c': [0, 0, 0, 7]}[t]
def onfile(M, V, ck, t, bits):
    b = item(M, V, N, ITEMS[t][0])
    ck.true(b is not None, 'the item is stored')
    if b is None: return
    w = ITEMS[t][1]; start = 4 if w == 4 else 8
    ck.true(len(b) == start + w * len(bits), 'size of the stored item')
    body = []
    for x in bits: body += big(x[0], 4) + big(x[1], 4) if t == 'c' else big(x, w)
    for x, y in zip(b[start:], body): ck.bits(x, y, 'big-endian bytes')
def numbers(M, V, ck):
    t = V.choose('type', ['i', 'd', 'c']); n = V.choose('n', [1, 2, 3, 7, 8, 15, 16, 20])
    xs, bits = values(V, t, n); nm = ITEMS[t][0]
    box = opened(M, N, status='new'); record(box)
    box[0][nm] = xs[0] if n == 1 else xs
    close(box)
    onfile(M, V, ck, t, bits)
    box = opened(M, N)
    ck.true(nm in box[0].items(), 'the item is listed')
    agree(V, ck, t, box[0][nm], bits, 'item as written')
    agree(V, ck, t, box[0][nm], bits, 'item read again')
    close(box)
def texts(M, V, ck):
    n = V.choose('n', [0, 1, 2, 5, 16, 63, 64, 65, 70])
    s, b = text(V, 'c', n)
    box = opened(M, N, status='new'); record(box)
    box[0]['history'] = s
    close(box)
    f = item(M, V, N, 'history')
    ck.true(f is not None and len(f) == n, 'stored text')
    box = opened(M, N)
    got = box[0]['history']
    g = tbits(got)
    ck.true(len(g) == n, 'length of the text')
    for x, y in zip(g, b): ck.bits(x, y, 'text as written')
    close(box)
def unicode(M, V, ck):
    s = V.choose('s', ['\u00e9', 'a\u4e2d\u6587b', '\U0001f6f0 x', 'line\nline\t\u00b5Jy\n' * 6])
    box = opened(M, N, status='new'); record(box); box[0]['history'] = s; close(box)
    box = opened(M, N); ck.true(box[0]['history'] == s, 'text beyond ASCII'); close(box)
def rewrite(M, V, ck):
    """The last value written counts, whatever its length and session."""
    t = V.choose('type', ['i', 'd', 'c']); ns = V.choose('lengths', [(1, 3), (3, 1), (20, 2), (2, 20), (20, 18)]); nm = ITEMS[t][0]
    two = V.choose('sessions', [1, 2])
    box = opened(M, N, status='new'); record(box)
    for k, n in enumerate(ns):
        xs, bits = values(V, t, n, 'x%d_' % k); box[0][nm] = xs[0] if n == 1 else xs
        if k == 0 and two == 2: close(box); box = opened(M, N, status='append')
    close(box)
    box = opened(M, N); agree(V, ck, t, box[0][nm], bits, 'item as last written'); close(box)
def several(M, V, ck):
    """Items do not disturb each other."""
    d, db = values(V, 'd', V.choose('nd', [1, 9]), 'd'); i, ib = values(V, 'i', V.choose('ni', [1, 20]), 'i'); c, cb = values(V, 'c', 2, 'c'); s, sb = text(V, 's', 6)
    box = opened(M, N, status='new')
    box[0]['history'] = s; box[0]['interval'] = d if len(d) > 1 else d[0]; record(box); box[0]['ngains'] = i if len(i) > 1 else i[0]; box[0]['leakage'] = c
    close(box)
    box = opened(M, N); u = box[0]
    agree(V, ck, 'c', u['leakage'], cb, 'complex item'); agree(V, ck, 'd', u['interval'], db, 'double item'); agree(V, ck, 'i', u['ngains'], ib, 'integer item')
    for x, y in zip(tbits(u['history']), sb): ck.bits(x, y, 'text item')
    close(box)
def special(M, V, ck):
    """The frequency table: a count, then an integer and two doubles per entry."""
    n = V.choose('entries', [1, 2, 3])
    k0 = i32(V, 'k'); ints = [i32(V, 'i%d' % k) for k in range(n)]; ds = [(dbl(V, 'a%d' % k), dbl(V, 'b%d' % k)) for k in range(n)]
    val = [k0]
    for k in range(n): val += [ints[k], ds[k][0][0], ds[k][1][0]]
    box = opened(M, N, status='new'); record(box); box[0]['freqs'] = val; close(box)
    box = opened(M, N); got = box[0]['freqs']; close(box)
    ck.true(len(got) == len(val), 'number of entries')
    agree(V, ck, 'i', got[0], [k0], 'count')
    for k in range(n):
        agree(V, ck, 'i', got[1 + 3*k], [ints[k]], 'integer entry')
        for q in (0, 1): ck.bits(b64(got[2 + 3*k + q]), ds[k][q][1], 'double entry')
def lowlevel(M, V, ck):
    """Single numbers through the low-level calls, at every alignment."""
    t = V.choose('type', ['j', 'i', 'l', 'r', 'd', 'c']); w = {'j': 2, 'i': 4, 'l': 8, 'r': 4, 'd': 8, 'c': 8}[t]
    m = M.miriad._miriad
    if t in 'jil': x = V.bv('x', 8 * w); y = V.bv('y', 8 * w); bx, by = x, y
    else: (x, bx), (y, by) = {'r': flt, 'd': dbl, 'c': cplx}[t](V, 'x'), {'r': flt, 'd': dbl, 'c': cplx}[t](V, 'y')
    box = opened(M, N, status='new'); record(box)
    h = box[0].haccess('stuff', 'write'); o = m.hwrite_init(h, t)
    ck.eq(m.hwrite(h, o, x, t), w, 'bytes written'); m.hwrite(h, o + 8 * w, y, t); m.hdaccess(h); close(box)
    box = opened(M, N); h = box[0].haccess('stuff', 'read'); c, o2 = m.hread_init(h)
    ck.true(c == t and o2 == o, 'type of the item')
    for off, b in ((o, bx), (o + 8 * w, by)):
        g, k = m.hread(h, off, t); ck.eq(k, w, 'bytes read')
        if t in 'jil':
            if ir.isbv(g) and g.size() != 8 * w: b = z3.SignExt(g.size() - 8 * w, b)
            ck.bits(g if ir.isbv(g) else int(g), b, 'number as written')
        elif t == 'd': ck.bits(b64(g), b, 'number as written')
        elif t == 'r': ck.bits(fbits(g), b, 'number as written')
        else:
            for p, q in zip(cparts(g), b): ck.bits(fbits(p), q, 'number as written')
    m.hdaccess(h); close(box)
PK = {'pack16_c': (2, 4), 'pack32_c': (4, 4), 'pack64_c': (8, 8), 'packr_c': (4, 4), 'packd_c': (8, 8)}
def packing(M, V, ck):
    """The packing functions themselves: big-endian bytes, and inverse of each other."""
    f = V.choose('function', list(PK)); n = V.choose('n', [1, 3]); w, iw = PK[f]
    xs = [V.bv('x%d' % k, 8 * w, False) for k in range(n)]
    want = sum([big(x, w) for x in xs], [])
    if V.symbolic:
        vm = M.miriad._miriad._vm
        a, b, c = [vm.alloc(k, 'heap block', bytearray(k)).base for k in (n * iw, n * w, n * iw)]
        wide = [z3.SignExt(8 * (iw - w), x) if iw > w else x for x in xs]
        for k, x in enumerate(wide): vm.sti(a + k * iw, x, iw)
        vm.call('@' + f, [a, b, n]); vm.call('@un' + f, [b, c, n])
        got = [vm.ldi(b + k, 1) for k in range(n * w)]; back = [vm.ldi(c + k * iw, iw) for k in range(n)]
        back = [ir.to_bv(x, 8 * iw) for x in back]
    else:
        import ctypes
        L = ctypes.CDLL(M.miriad._miriad.__file__)
        sg = lambda x: x - (1 << 8*w) if iw > w and x >> (8*w - 1) else x
        wide = [sg(x) & ((1 << 8*iw) - 1) for x in xs]
        a = ctypes.create_string_buffer(b''.join(x.to_bytes(iw, 'little') for x in wide)); b = ctypes.create_string_buffer(n * w); c = ctypes.create_string_buffer(n * iw)
        getattr(L, f)(a, b, n); getattr(L, 'un' + f)(b, c, n)
        got = list(b.raw[:n*w]); back = [int.from_bytes(c.raw[k*iw:(k+1)*iw], 'little') for k in range(n)]
    for x, y in zip(got, want): ck.bits(x, y, 'big-endian bytes')
    for x, y in zip(back, wide): ck.bits(x, y, 'unpacking returns the number')
def buffered(M, V, ck):
    """An item longer than the buffer."""
    n, edge = 2056, list(range(2042, 2056))
    v = {k: dbl(V, 'x%d' % k) for k in edge}
    box = opened(M, N, status='new'); record(box); box[0]['interval'] = [v[k][0] if k in v else float(k) for k in range(n)]; close(box)
    box = opened(M, N); got = elems(box[0]['interval']); close(box)
    ck.true(len(got) == n, 'length of a long item')
    for k in range(n):
        if k in v: ck.bits(b64(got[k]), v[k][1], 'number as written')
        else: ck.true(got[k] == k, 'number as written')
O = dict(stubs=ST, max_paths=400, branch_ms=0, budget=(150, 900))
SCENARIOS = [Scenario(f.__name__, f, **O) for f in (numbers, texts, unicode, rewrite, several, special, lowlevel, packing, buffered)]
