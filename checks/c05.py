from vlib.harness import Scenario
from checks.uvlib import *
BOUNDS = 'variables of every type with up to 4 values (text of up to 40 characters), every value of the type (32 and 16-bit integers, finite singles and doubles, ASCII characters); sequences of up to 3 records with a variable assigned (to any value, also the one it has, and to more or fewer values) or not before each; 12 assignments with the last ones arbitrary; several variables of different types; reading twice'
OUTSIDE = 'longer sequences and texts'
EXPLANATION = 'The LLVM IR of the compiled module and the executed miriad.py assign variables and write records to an in-memory file system and read both back; characters and numbers are bit-vectors.'
EXACT_BITS = True
N = 'a.uv'
DT = {'i': 'int32', 'l': 'int64', 'r': 'float32', 'd': 'float64', 'c': 'complex64', 'z': 'complex128'}
def record(box, k=0): box[0].write((np.array([1., 2., 3.]), 2455000.5 + k, (0, 1)), np.ma.array(np.zeros(1, dtype=np.complex64), mask=[False]))
def j16(V, name):
    b = V.bv(name, 16)
    return (z3.SignExt(16, b) if V.symbolic else b), (z3.SignExt(16, b) if V.symbolic else b)
def one(V, t, name):
    """One value and its bits."""
    if t == 'i': x = i32(V, name); return x, x
    if t == 'j': return j16(V, name)
    return {'r': flt, 'd': dbl, 'c': cplx}[t](V, name)
def array(V, t, n, name, how='C', dtype=None):
    dtype = dtype or ('int64' if t in 'ij' else DT[t])
    xs = [one(V, t, '%s%d' % (name, k)) for k in range(n)]
    if V.symbolic:
        a = cdrv.tarr_like((n,), dtype, how, name)
        for k, (x, b) in enumerate(xs):
            if t in 'ij': x = z3.SignExt(32, x) if dtype == 'int64' else x
            elif t == 'c': x = (FB(b[0], 32), FB(b[1], 32))
            elif t == 'r': x = FB(b, 32)
            a.set((k,), x)
        return a, [b for _, b in xs]
    base, a = cdrv.layout((n,), dtype, how)
    for k, (x, b) in enumerate(xs): a[k] = x
    return a, [b for _, b in xs]
def value(V, t, n, name, **k):
    if t == 'a': return text(V, name, n)
    if n == 1 and not k:
        x, b = one(V, t, name)
        return x, [b]
    return array(V, t, n, name, **k)
def same(ck, t, got, bits, what):
    if t == 'a':
        ck.true(isinstance(got, str), what + ': kind')
        g = tbits(got); ck.true(len(g) == len(bits), what + ': length')
        for x, y in zip(g, bits): ck.bits(x, y, what)
        return
    sc = isinstance(got, (int, float, complex, sym.SymN, sym.SymC, FB, ir.FX)) or ir.isbv(got)
    ck.true(sc == (len(bits) == 1), what + ': one number or an array')
    g = [got] if sc else elems(got)
    ck.true(len(g) == len(bits), what + ': length')
    for x, y in zip(g, bits):
        if t in 'ij':
            if isinstance(x, sym.SymN): raise sym.EngineLimit('integer value')
            if ir.isbv(x) and x.size() == 64: ck.bits(x, z3.SignExt(32, y) if ir.isbv(y) else y, what)
            else: ck.bits(x if ir.isbv(x) else int(x), y, what)
        elif t == 'r': ck.bits(fbits(x), y, what)
        elif t == 'd': ck.bits(b64(x), y, what)
        else:
            for p, q in zip(cparts(x), y): ck.bits(fbits(p), q, what)
NM = {'a': 'telescop', 'i': 'nants', 'j': 'jvar', 'r': 'epoch', 'd': 'lst', 'c': 'cgain'}
def add(box, t): box[0].add_var(NM[t], t)
def types(M, V, ck):
    """Each type, one or more values."""
    t = V.choose('type', ['a', 'i', 'j', 'r', 'd', 'c'])
    n = V.choose('n', [0, 1, 2, 7, 8, 40] if t == 'a' else [1, 2, 3, 4])
    x, b = value(V, t, n, 'x')
    box = opened(M, N, status='new'); add(box, t); box[0][NM[t]] = x; record(box); close(box)
    box = opened(M, N)
    ck.true(box[0].vartable.get(NM[t]) == t and NM[t] in box[0].vars(), 'the variable is listed with its type')
    box[0].read()
    same(ck, t, box[0][NM[t]], b, 'variable as assigned'); same(ck, t, box[0][NM[t]], b, 'variable read twice')
    close(box)
def layouts(M, V, ck):
    """Arrays by type and memory layout."""
    t, dt = V.choose('type', [('i', 'int32'), ('i', 'int64'), ('j', 'int32'), ('j', 'int64'), ('r', 'float32'), ('d', 'float64'), ('c', 'complex64')])
    how = V.choose('how', ['C', 'step', 'neg']); n = V.choose('n', [1, 3])
    x, b = value(V, t, n, 'x', how=how, dtype=dt)
    box = opened(M, N, status='new'); add(box, t); box[0][NM[t]] = x; record(box); close(box)
    box = opened(M, N); box[0].read(); same(ck, t, box[0][NM[t]], b, 'array as assigned'); close(box)
def play(M, V, ck, t, plan, name='x', rewind=False):
    """plan: for each record, the number of values assigned before it (None: not assigned)."""
    box = opened(M, N, status='new'); add(box, t); want = []; b = None
    for k, n in enumerate(plan):
        if n is not None:
            x, b = value(V, t, n, '%s%d_' % (name, k)); box[0][NM[t]] = x
        record(box, k); want.append(b)
    close(box)
    box = opened(M, N)
    for p in range(2 if rewind else 1):
        for k, b in enumerate(want):
            (uvw, tm, ij), d = box[0].read()
            ck.eq(float(tm), 2455000.5 + k, 'records in order')
            if b is not None: same(ck, t, box[0][NM[t]], b, 'value in force at the record')
        ck.raises(IOError, lambda: box[0].read(), 'no record after the last one')
        box[0].rewind()
    close(box)
def history(M, V, ck):
    """Assigned or not, to the same or another value."""
    t = V.choose('type', ['i', 'j', 'r', 'd', 'c', 'a'])
    n = {'a': 3}.get(t, 1)
    play(M, V, ck, t, V.choose('plan', [(n, n), (n, n, n), (n, None, n), (None, n, n), (n, n, None)]), rewind=True)
def lengths(M, V, ck):
    """The number of values changes, and changes back."""
    t = V.choose('type', ['i', 'r', 'd', 'c', 'a', 'j'])
    play(M, V, ck, t, V.choose('plan', [(1, 3), (3, 1), (2, 4, 2), (4, 2, None), (1, 2, 1), (2, 1, 2)]), rewind=True)
def often(M, V, ck):
    """Many changes in a row, then arbitrary ones, then none, also of another length."""
    t = V.choose('type', ['i', 'd', 'a'])
    m = V.choose('changes', [7, 8, 9, 10]); last = V.choose('last', [(1, 1), (2, 1), (None, 1), (1, None), (2, None, 2)])
    box = opened(M, N, status='new'); add(box, t)
    def c(k): return ('v%d' % (10 + k), list(b'v%d' % (10 + k))) if t == 'a' else (k + .5, [fixed(k + .5)[1]]) if t == 'd' else (k, [k])
    want = []
    for k in range(m): x, b = c(k); box[0][NM[t]] = x; record(box, k); want.append(b)
    for k, n in enumerate(last):
        if n is not None: x, b = value(V, t, n, 'y%d_' % k); box[0][NM[t]] = x
        same(ck, t, box[0][NM[t]], b, 'value on the data set being written')
        record(box, m + k); want.append(b)
    close(box)
    box = opened(M, N)
    for b in want: box[0].read(); same(ck, t, box[0][NM[t]], b, 'value in force at the record')
    close(box)
def several(M, V, ck):
    """Variables of different types do not disturb each other."""
    ts = V.choose('types', ['aid', 'jcr'])
    box = opened(M, N, status='new'); cur = {}; want = []
    for t in ts: add(box, t)
    for k in range(2):
        which = V.choose('set%d' % k, [ts, ts[0], ts[1:]]) if k else ts
        for t in which: x, cur[t] = value(V, t, 2 if t in 'ar' else 1, '%s%d' % (t, k)); box[0][NM[t]] = x
        record(box, k); want.append(dict(cur))
    close(box)
    box = opened(M, N)
    for w in want:
        box[0].read()
        for t in ts: same(ck, t, box[0][NM[t]], w[t], 'value in force at the record')
    close(box)
def own(M, V, ck):
    """The variables that belong to the record itself may be assigned, too."""
    which = V.choose('which', ['coord', 'time', 'baseline'])
    box = opened(M, N, status='new'); box[0].add_var(which, {'coord': 'd', 'time': 'd', 'baseline': 'r'}[which])
    for k in range(2):
        if which == 'coord': x = f64arr(V, [1., dbl(V, 'u%d' % k)[0], 3.])
        elif which == 'time': x = dbl(V, 't%d' % k)[0]
        else: x = V.choose("b%d" % k, [258., 259., -1., 0.])
        if k: box[0][which] = x
        record(box, k)
        if not k: box[0][which] = x
    close(box)
    def is_(x, y, what): ck.true(sameval(b64(x), fixed(y)[1]), what)
    box = opened(M, N)
    for k in range(2):
        (uvw, t, ij), d = box[0].read()
        is_(t, 2455000.5 + k, 'time of the record'); is_(box[0]['time'], 2455000.5 + k, 'time variable')
        for x, y, z in zip(elems(uvw), (1., 2., 3.), elems(box[0]['coord'])): is_(x, y, 'coordinates of the record'); is_(z, y, 'coordinate variable')
        ck.true(tuple(ij) == (0, 1), 'baseline of the record'); ck.bits(fbits(box[0]['baseline']), b32(258.), 'baseline variable')
    close(box)
def sessions(M, V, ck):
    """A second session assigns the variable anew."""
    t = V.choose('type', ['i', 'd', 'a']); n = 2 if t == 'a' else 1; m = V.choose('m', [1, 2, None])
    x, b = value(V, t, n, 'x'); box = opened(M, N, status='new'); add(box, t); box[0][NM[t]] = x; record(box); close(box)
    box = opened(M, N, status='append'); add(box, t); c = b
    if m is not None: y, c = value(V, t, m, 'y'); box[0][NM[t]] = y
    record(box, 1); close(box)
    box = opened(M, N)
    for w in (b, c): box[0].read(); same(ck, t, box[0][NM[t]], w, 'value in force at the record')
    close(box)
def refused(M, V, ck):
    """What a variable cannot hold is refused and leaves its value."""
    t, bad, exc = V.choose('what', [('i', 'big', OverflowError), ('j', 'big', OverflowError), ('i', 'bigs', OverflowError), ('j', 'bigs', OverflowError), ('i', 'none', ValueError), ('d', 'none', ValueError), ('c', 'none', ValueError),
        ('i', 'text', ValueError), ('a', 'number', ValueError), ('d', 'text', ValueError), ('c', 'text', ValueError)])
    x, b = value(V, t, 1, 'x')
    box = opened(M, N, status='new'); add(box, t); box[0][NM[t]] = x; record(box)
    lim = 31 if t == 'i' else 15
    if bad == 'big': y = V.int('y', -1 << 40, 1 << 40); V.assume((y >= 1 << lim) | (y < -(1 << lim)))
    elif bad == 'bigs':
        y = V.typed('y', (2,), 'int64'); z = V.elem(y, (1,))
        if V.symbolic: V.assume(sym.SymB(z3.Or(z >= 1 << lim, z < -(1 << lim))))
        else: V.assume(int(z) >= 1 << lim or int(z) < -(1 << lim))
    elif bad == 'none': y = V.typed('y', (0,), {'i': 'int64', 'd': 'float64', 'c': 'complex64'}[t])
    else: y = 'no' if bad == 'text' else 4
    def put(): box[0][NM[t]] = y
    ck.raises(exc, put, 'a value the variable cannot hold')
    record(box, 1); close(box)
    box = opened(M, N)
    for k in range(2): box[0].read(); same(ck, t, box[0][NM[t]], b, 'value in force at the record')
    ck.raises(IOError, lambda: box[0].read(), 'no record after the last one')
    close(box)
def many(M, V, ck):
    """More variables than a signed byte can count; a 257th is refused."""
    m = V.choose('m', [130, 252])          # five belong to every record
    box = opened(M, N, status='new')
    for k in range(m): box[0].add_var('v%d' % k, 'i')
    probe = {1: i32(V, 'p1'), 126: i32(V, 'p126'), m - 1: i32(V, 'plast')}
    record(box)
    for k in range(m):
        x = probe.get(k, k)
        try: box[0]['v%d' % k] = x
        except RuntimeError: ck.true(k >= 250, 'variables are accepted'); m = k; break
    record(box, 1); close(box)
    box = opened(M, N); box[0].read(); box[0].read()
    for k in sorted(set([0, 1, 2, 125, 126, 127, 128, m - 1])):
        if k < m: same(ck, 'i', box[0]['v%d' % k], [probe.get(k, k)], 'one of many variables')
    close(box)
O = dict(stubs=ST, max_paths=1500, branch_ms=0, budget=(150, 900))
SCENARIOS = [Scenario(f.__name__, f, **O) for f in (types, layouts, history, lengths, often, several, own, sessions, refused, many)]
