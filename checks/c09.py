from vlib.harness import Scenario
from checks.uvlib import *
BOUNDS = 'two data sets, one being written and one being read, every spectrum and flag pattern, times and variable values with 48 arbitrary bits; between their operations one to three refused operations out of 36 kinds (and pairs of different kinds), on a third data set, on none, or on either of the two; 40 failing opens in a row'
OUTSIDE = 'errors of the operating system (full disk, lost permissions) and exhausted memory; more than three errors of different kinds'
EXPLANATION = 'The LLVM IR of the compiled module and the executed miriad.py work on an in-memory file system with every read and write checked against the extent and lifetime of its object; data are bit-vectors.'
EXACT_BITS = True
A, B, C = 'a.uv', 'b.uv', 'c.uv'
Z = np.zeros
def other(V, name, k):
    """A double that is arbitrary but for its first and last byte (which make it differ from those of other k)."""
    b = V.bv(name, 48, False)
    if V.symbolic:
        b = z3.Concat(z3.BitVecVal(0x40 + k, 8), b, z3.BitVecVal(k, 8)); return FB(b, 64), b
    b = (0x40 + k) << 56 | b << 8 | k
    return struct.unpack('<d', struct.pack('<Q', b))[0], b
def rec(V, box, name, k, n=2, v=True):
    """One record with arbitrary contents and an arbitrary value of a variable."""
    d, b = spectrum(V, name + 'd', n); m = mask(V, name + 'm', n)
    t, tb = other(V, name + 't', k)
    if v: x, xb = other(V, name + 'v', k); box[0]['lst'] = x
    else: xb = None
    box[0].write((np.array([1., 2., 3.]), t, (0, k + 1)), masked(V, d, m))
    return b, m, tb, xb, k
def begin(box):
    box[0].add_var('lst', 'd'); box[0].add_var('telescop', 'a'); box[0]['telescop'] = 'PAPER'; box[0]['ngains'] = 3; box[0].add_var('unset', 'd')
def check(ck, box, r, what):
    b, m, tb, xb, k = r
    try: (uvw, t, ij), d = box[0].read()
    except IOError: ck.true(False, what + ': a record is missing'); return
    ck.true(tuple(ij) == (0, k + 1), what + ': baseline'); ck.true(sameval(b64(t), tb), what + ': time')
    s = sbits(d); ck.true(len(s) == len(b), what + ': length')
    f = flags(d)
    for p, q in zip(f, m): ck.eq(p, q, what + ': flags')
    for x, y in zip(s, b): ck.bits(x, y, what + ': data')
    if xb is not None: ck.bits(b64(box[0]['lst']), xb, what + ': variable')
    ck.true(box[0]['telescop'] == 'PAPER', what + ': variable that is not changed')
def whole(M, V, ck, name, rs, what):
    """All records, twice, and none more."""
    box = opened(M, name)
    for p in range(2):
        for r in rs: check(ck, box, r, what)
        try: box[0].read(); ck.true(False, what + ': no record after the last one')
        except IOError: pass
        box[0].rewind()
    ck.true(box[0]['ngains'] == 3, what + ': header item')
    close(box)
def p3(k=0): return (np.array([1., 2., 3.]), 2455000.5 + k, (0, 1))
def openbad(M, *a, **k):
    """A data set that cannot be opened; if it can, it is closed again."""
    box = [M._miriad.UV(*a)]
    close(box)
# operations on no open data set
NONE = {
    'open missing': lambda M, V: openbad(M, 'nope.uv', 'old', 'r'),
    'append missing': lambda M, V: openbad(M, 'dir/nope.uv', 'append', 'r'),
    'create existing': lambda M, V: openbad(M, C, 'new', 'r'),
    'create without parent': lambda M, V: openbad(M, 'dir/nope.uv', 'new', 'r'),
    'open a plain file': lambda M, V: openbad(M, C + '/visdata', 'old', 'r'),
    'create under a file': lambda M, V: openbad(M, C + '/visdata/x', 'new', 'r'),
    'open nothing': lambda M, V: openbad(M, '', 'old', 'r'),
    'create nothing': lambda M, V: openbad(M, '', 'new', 'r'),
    'unknown status': lambda M, V: openbad(M, 'x.uv', 'newest', 'r'),
    'unknown storage mode': lambda M, V: openbad(M, C, 'old', 'q'),
    'open a long name': lambda M, V: openbad(M, 'n' * 1010, 'old', 'r'),
    'open a very long name': lambda M, V: openbad(M, 'n' * 3000, 'old', 'r'),
}
# operations on a data set being written
NEW = {
    'read': lambda M, u: u.raw_read(4),
    'rewind': lambda M, u: u.rewind(),
    'unknown variable': lambda M, u: u._rdvr('nope', 'd'),
    'unset variable': lambda M, u: u['unset'],
    'variable of another type': lambda M, u: u._wrvr('lst', 'i', 4),
    'long variable name': lambda M, u: u._wrvr('lstlstlstlst', 'd', 4.),
    'very long variable name': lambda M, u: u._wrvr('l' * 300, 'd', 4.),
    'unknown type': lambda M, u: u._wrvr('lst', 'q', 4.),
    'flags of another shape': lambda M, u: u.raw_write(p3(), Z(3, dtype=np.complex64), Z(2, dtype=np.int32)),
    'no channel': lambda M, u: u.raw_write(p3(), Z(0, dtype=np.complex64), Z(0, dtype=np.int32)),
    'data of another type': lambda M, u: u.raw_write(p3(), Z(3, dtype=np.float64), Z(3, dtype=np.int32)),
    'missing item': lambda M, u: u.haccess('nope', 'read'),
    'long item name': lambda M, u: u.haccess('n' * 40, 'write'),
    'unknown item mode': lambda M, u: u.haccess('nope', 'look'),
}
# operations on a data set being read
OLD = {
    'write': lambda M, u: u.raw_write(p3(), Z(3, dtype=np.complex64), Z(3, dtype=np.int32)),
    'write a variable': lambda M, u: u._wrvr('lst', 'd', 4.),
    'write another variable': lambda M, u: u._wrvr('other', 'd', 4.),
    'unknown variable': lambda M, u: u._rdvr('nope', 'd'),
    'variable of another type': lambda M, u: u._rdvr('lst', 'a'),
    'long variable name': lambda M, u: u._rdvr('l' * 300, 'd'),
    'unknown type': lambda M, u: u._rdvr('lst', 'q'),
    'missing item': lambda M, u: u.haccess('nope', 'read'),
    'long item name': lambda M, u: u.haccess('n' * 40, 'read'),
    'unknown item mode': lambda M, u: u.haccess('nope', 'look'),
}
def refuse(ck, f, what):
    try: f()
    except Exception as e:
        if type(e).__module__.startswith('vlib'): raise
        ck.true(isinstance(e, (RuntimeError, ValueError, IOError, KeyError, TypeError, MemoryError)), what + ': is refused with an exception'); return
    ck.true(False, what + ': is refused with an exception')
def third(M):
    c = opened(M, C, status='new'); begin(c); c[0]['lst'] = 1.; c[0].write(p3(), np.ma.array(Z(2, dtype=np.complex64), mask=[False, True])); return c
def stage(M, V):
    """A data set with two records, opened to be read after the first, and one being written."""
    b = opened(M, B, status='new'); begin(b); rb = [rec(V, b, 'b0', 0), rec(V, b, 'b1', 1, 3)]; close(b)
    b = opened(M, B)
    a = opened(M, A, status='new'); begin(a); ra = [rec(V, a, 'a0', 0)]
    return a, ra, b, rb
def others(M, V, ck):
    """The error is about another data set, or about none."""
    kind, op = V.choose('op', [('none', x) for x in NONE] + [('new', x) for x in NEW] + [('old', x) for x in OLD]); times = V.choose('times', [1, 2, 3])
    c = third(M)
    if kind != 'new': close(c)
    if kind == 'old': c = opened(M, C); c[0].read()
    a, ra, b, rb = stage(M, V)
    check(ck, b, rb[0], 'before')
    for k in range(times):
        refuse(ck, (lambda: NONE[op](M, V)) if kind == 'none' else (lambda: {'new': NEW, 'old': OLD}[kind][op](M, c[0])), op)
    check(ck, b, rb[1], 'data set being read')
    ra.append(rec(V, a, 'a1', 1)); close(a); close(b)
    whole(M, V, ck, A, ra, 'data set being written'); whole(M, V, ck, B, rb, 'data set that was read')
    if c: close(c)
def written(M, V, ck):
    """The error is about the data set being written."""
    op = V.choose('op', list(NEW)); times = V.choose('times', [1, 2])
    a, ra, b, rb = stage(M, V)
    for k in range(times): refuse(ck, lambda: NEW[op](M, a[0]), op)
    ra.append(rec(V, a, 'a1', 1, V.choose('channels', [2, 3])))
    refuse(ck, lambda: NEW[op](M, a[0]), op)
    ra.append(rec(V, a, 'a2', 2, v=False)); close(a)
    for r in rb: check(ck, b, r, 'data set being read')
    close(b); ra[2] = ra[2][:3] + (ra[1][3],) + ra[2][4:]
    whole(M, V, ck, A, ra, 'data set that was written')
def being_read(M, V, ck):
    """The error is about the data set being read, before or after its first record."""
    op = V.choose('op', list(OLD)); when = V.choose('when', [0, 1, 2])
    a, ra, b, rb = stage(M, V)
    for k, r in enumerate(rb):
        if when == k: refuse(ck, lambda: OLD[op](M, b[0]), op)
        check(ck, b, r, 'data set being read')
    if when == 2:
        refuse(ck, lambda: OLD[op](M, b[0]), op)
        refuse(ck, lambda: b[0].read(), 'no record after the last one')
        refuse(ck, lambda: OLD[op](M, b[0]), op)
    b[0].rewind()
    for r in rb: check(ck, b, r, 'data set read again')
    close(b); close(a)
    whole(M, V, ck, B, rb, 'data set that was read'); whole(M, V, ck, A, ra, 'data set that was written')
def pairs(M, V, ck):
    """Two errors of different kinds, in a row."""
    x = V.choose('first', ['open missing', 'create existing', 'open a plain file', 'unknown status', 'unknown storage mode'])
    y = V.choose('second', ['read', 'variable of another type', 'unset variable', 'missing item', 'no channel']); order = V.choose('order', [0, 1])
    close(third(M)); a, ra, b, rb = stage(M, V)
    fs = [lambda: NONE[x](M, V), lambda: NEW[y](M, a[0])]
    for f in fs if order else fs[::-1]: refuse(ck, f, x + ', ' + y)
    for r in rb: check(ck, b, r, 'data set being read')
    ra.append(rec(V, a, 'a1', 1)); close(a); close(b)
    whole(M, V, ck, A, ra, 'data set that was written'); whole(M, V, ck, C, [], 'third') if False else None
def opens(M, V, ck):
    """Many failing opens in a row leave room for others."""
    op = V.choose('op', list(NONE)); close(third(M))
    a, ra, b, rb = stage(M, V)
    for k in range(40): refuse(ck, lambda: NONE[op](M, V), op)
    ra.append(rec(V, a, 'a1', 1)); close(a); check(ck, b, rb[0], 'data set being read')
    n = opened(M, 'n.uv', status='new'); begin(n); rn = [rec(V, n, 'n0', 0)]; close(n)
    whole(M, V, ck, 'n.uv', rn, 'data set opened after the errors'); whole(M, V, ck, A, ra, 'data set that was written')
    check(ck, b, rb[1], 'data set being read'); close(b)
def small(M, V, ck):
    """Reading into fewer channels than a record has is refused."""
    b = opened(M, B, status='new'); begin(b); rb = [rec(V, b, 'b0', 0, 4), rec(V, b, 'b1', 1, 2)]; close(b)
    b = opened(M, B); n = V.choose('n', [-3, -1, 0, 1, 2, 3])
    refuse(ck, lambda: b[0].raw_read(n), 'reading a record of 4 channels into fewer'); b[0].rewind()
    for r in rb: check(ck, b, r, 'data set read again')
    close(b)
O = dict(stubs=ST, max_paths=1500, branch_ms=0, budget=(150, 900))
SCENARIOS = [Scenario(f.__name__, f, **O) for f in (others, written, being_read, pairs, opens, small)]
