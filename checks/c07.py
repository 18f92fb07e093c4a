from vlib.harness import Scenario
from checks.uvlib import *
BOUNDS = 'data sets of 3 to 5 records, every spectrum and flag pattern, every pair of antennas out of 3 (also antennas 254 to 2046) in each record, every polarization from -256 to 255, times with 7 arbitrary bits and every LST of each record against selections of every kind by choice of bounds; up to 3 selections in a row, clauses joined by and/or; decimation by 1 to 4; rewinding and clearing'
OUTSIDE = 'selections by pointing, shadowing, sky frequency, hour angle, amplitude and window; more than 5 records'
EXPLANATION = 'The LLVM IR of the compiled module and the executed miriad.py read a data set from an in-memory file system with selections applied; the condition of each record for being returned is stated over its symbolic polarization, time and coordinates, with IEEE arithmetic.'
EXACT_BITS = True
ir.FPARITH = True
N = 'a.uv'
def begin(M, *vs):
    box = opened(M, N, status='new')
    for v, t in vs: box[0].add_var(v, t)
    return box
class Rec: pass
def put(V, box, k, t=None, ij=(0, 1), uvw=None, n=1, **vs):
    r = Rec(); d, r.bits = spectrum(V, 'd%d' % k, n); r.mask = mask(V, 'm%d' % k, n)
    r.t = (2455000.5 + k, fixed(2455000.5 + k)[1]) if t is None else t if isinstance(t, tuple) else (t, fixed(t)[1])
    r.ij, r.k, r.uvw, r.vs = ij, k, uvw or [float(k), 0., 0.], vs
    for v, x in vs.items(): box[0][v] = x[0] if isinstance(x, tuple) else x
    box[0].write((np.array(r.uvw), r.t[0], ij), masked(V, d, r.mask)); return r
def keep(c): return bool(c) if not isinstance(c, sym.SymB) else bool(c)
def readall(ck, box, rs, what):
    """The records for which the condition holds, in order and unaltered, and no other."""
    for r in rs:
        try: (uvw, t, ij), d = box[0].read()
        except IOError: ck.true(False, what + ': a matching record is missing'); return False
        ck.true(sorted(ij) == sorted(r.ij), what + ': antennas of the matching record')
        ck.true(float(elems(uvw)[0]) == r.uvw[0], what + ': coordinates of the matching record')
        ck.true(sameval(b64(t), r.t[1]), what + ': time of the matching record')
        for x, y in zip(sbits(d), r.bits): ck.bits(x, y, what + ': data of the matching record')
        f = flags(d); ck.true(len(f) == len(r.mask), what + ': channels')
        for x, y in zip(f, r.mask): ck.eq(x, y, what + ': flags of the matching record')
        for v, x in r.vs.items():
            g = box[0][v]
            if isinstance(x, tuple): ck.bits(b64(g), x[1], what + ': variable of the matching record')
            else: ck.true(g == x if not ir.isbv(g) and not ir.isbv(x) else same_i(g, x), what + ': variable of the matching record')
    try: box[0].read(); ck.true(False, what + ': no record that does not match'); return False
    except IOError: return True
def both(M, V, ck, rs, sel, want, what):
    """Read with the selections, again after rewinding, and everything after clearing."""
    box = opened(M, N)
    for s in sel: box[0].select(*s)
    got = [r for r in rs if keep(want(r))]
    if readall(ck, box, got, what):
        box[0].rewind()
        if readall(ck, box, got, what + ', after rewinding'):
            box[0].select('clear', 0, 0); box[0].rewind(); readall(ck, box, rs, 'after clearing')
    close(box)
def seq(sel, match):
    """Selections of one kind: the last that matches decides, otherwise the opposite of the first."""
    inc = lambda s: bool(s[3]) if len(s) > 3 else True
    def f(r):
        c = not inc(sel[0])
        for s in sel: c = ite(match(s, r), inc(s), c)
        return c
    return f
def ite(c, a, b):
    if not isinstance(c, sym.SymB): return a if c else b
    a, b = [x.e if isinstance(x, sym.SymB) else z3.BoolVal(bool(x)) for x in (a, b)]
    return ir.mk_b(z3.If(c.e, a, b))
def land(*c): 
    r = True
    for x in c: r = ite(x, r, False) if not isinstance(r, sym.SymB) else ite(r, x, False)
    return r
def lor(*c):
    r = False
    for x in c: r = ite(x, True, r)
    return r
PAIRS = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
def m_ant(s, r):
    a, b = s[1], s[2]
    if s[0] == 'auto': return r.ij[0] == r.ij[1]
    if a == -1 and b == -1: return True
    if -1 in (a, b): return max(a, b) in r.ij
    return sorted(r.ij) == sorted((a, b))
ANTS = [[('antennae', 0, 1)], [('antennae', 2, 0)], [('antennae', 1, -1)], [('antennae', -1, 2)], [('antennae', -1, -1)], [('antennae', 1, 1)], [('auto', 0, 0)],
    [('antennae', 0, 1, 0)], [('antennae', 1, -1, 0)], [('auto', 0, 0, 0)], [('antennae', 0, 1), ('antennae', 1, 2)], [('antennae', 1, -1), ('auto', 0, 0, 0)], [('auto', 0, 0, 0), ('antennae', 2, -1, 0)],
    [('antennae', 0, 1, 0), ('antennae', 2, 2, 0)], [('auto', 0, 0), ('antennae', 0, 2)], [('antennae', 2, -1), ('antennae', 1, 2, 0)], [('antennae', -1, -1, 0)]]
def antennas(M, V, ck):
    """Antennas, pairs, autos, inclusion and exclusion, over every pair."""
    sel = V.choose('selection', ANTS); first = V.choose('records', [0, 1])
    ps = PAIRS if first else [(1, 0), (2, 2), (2, 1), (0, 0), (2, 0), (1, 1)]
    box = begin(M); rs = [put(V, box, k, ij=p) for k, p in enumerate(ps)]; close(box)
    both(M, V, ck, rs, sel, seq(sel, m_ant), 'antenna selection')
def large(M, V, ck):
    """Antenna numbers on both sides of the limits of the packing."""
    x, y = V.choose('pair', [(254, 255), (255, 256), (255, 255), (256, 256), (0, 2046), (2045, 2046), (2046, 2046), (0, 256), (1000, 255)])
    sel = V.choose('selection', [lambda x, y: [('antennae', x, y)], lambda x, y: [('antennae', y, -1)], lambda x, y: [('auto', 0, 0)], lambda x, y: [('antennae', x, y, 0)], lambda x, y: [('antennae', x, -1, 0)]])(x, y)
    box = begin(M); rs = [put(V, box, k, ij=p) for k, p in enumerate([(x, y), (x - 1 if x else 3, y), (x, y - 1 if y else 3), (y, y)])]; close(box)
    both(M, V, ck, rs, sel, seq(sel, m_ant), 'antenna selection')
def polarizations(M, V, ck):
    """Any polarization in each record."""
    sel = V.choose('selection', [[('polarization', -5, 0)], [('polarization', 1, 0)], [('polarization', -6, 0, 0)], [('polarization', -5, 0), ('polarization', -6, 0)], [('polarization', -5, 0, 0), ('polarization', -8, 0, 0)], [('polarization', -5, 0), ('polarization', -5, 0, 0)]])
    box = begin(M, ('pol', 'i')); rs = [put(V, box, k, pol=anypol(V, 'p%d' % k, sel[0][1] < 0)) for k in range(3)]; close(box)
    both(M, V, ck, rs, sel, seq(sel, lambda s, r: eqi(r.vs['pol'], s[1])), 'polarization selection')
def anypol(V, name, neg=True):
    """A polarization code with an arbitrary last byte."""
    b = V.bv(name, 8, False)
    if V.symbolic: return z3.simplify(z3.Concat(z3.BitVecVal(0xffffff if neg else 0, 24), b))
    return b - 256 if neg else b
def eqi(x, c):
    if ir.isbv(x): return ir.mk_b(x == z3.BitVecVal(c, x.size()))
    return int(x) == c
def same_i(g, x):
    if ir.isbv(g) and ir.isbv(x) and g.size() != x.size(): x = z3.SignExt(g.size() - x.size(), x) if g.size() > x.size() else x
    return ir.mk_b(g == x)
def fp(t): return z3.fpBVToFP(t if ir.isbv(t) else z3.BitVecVal(t, 64), z3.Float64())
def within(t, lo, hi):
    """lo <= t <= hi, for a number (with its bits)."""
    if isinstance(t[0], FB): return ir.mk_b(z3.And(z3.fpGEQ(fp(t[1]), z3.FPVal(lo, z3.Float64())), z3.fpLEQ(fp(t[1]), z3.FPVal(hi, z3.Float64()))))
    return lo <= t[0] <= hi
def near(V, name, base, bits=30):
    """A double with the leading bits of the given one and arbitrary trailing bits."""
    b0 = fixed(base)[1]; b, low = V.bv(name, 7 if bits == 30 else bits, False), bits == 30
    if V.symbolic:
        w = z3.simplify(z3.Concat(z3.BitVecVal(b0 >> bits, 64 - bits), b)) if not low else z3.simplify(z3.Concat(z3.BitVecVal(b0 >> bits, 64 - bits), b, z3.BitVecVal(0, 22), z3.Extract(0, 0, b)))
        return FB(w, 64), w
    w = b0 >> bits << bits | (b << 23 | b & 1 if low else b)
    return struct.unpack('<d', struct.pack('<Q', w))[0], w
def lowbyte(V, name, k, t):
    """A finite number with arbitrary bits but for the last byte (so that those of other k differ)."""
    n = 56 if t == 'd' else 24; b = V.bv(name, n, False); e = (1 << 11) - 1 if t == 'd' else 255
    if V.symbolic:
        w = z3.Concat(b, z3.BitVecVal(k, 8)); f = FB(w, n + 8)
        V.assume(sym.SymB((z3.Extract(62, 52, w) if t == 'd' else z3.Extract(30, 23, w)) != e)); return (f if t == 'd' else ir.FX(f)), w
    w = b << 8 | k; V.assume((w >> (52 if t == 'd' else 23)) & e != e)
    return (struct.unpack('<d', struct.pack('<Q', w)) if t == 'd' else struct.unpack('<f', struct.pack('<I', w)))[0], w
def times(lo, hi, M, V, ck):
    how = V.choose('how', [lambda lo, hi: [('time', lo, hi)], lambda lo, hi: [('time', lo, hi, 0)], lambda lo, hi: [('time', lo, lo + .125), ('time', hi - .125, hi)]])
    sel = how(lo, hi); near_ = V.choose('near', [lo, hi] if len(sel) == 1 else [lo + .125, hi - .125])
    box = begin(M); rs = [put(V, box, 0, t=near(V, 't', near_)), put(V, box, 1, t=hi + 1.)]; close(box)
    both(M, V, ck, rs, sel, seq(sel, lambda s, r: within(r.t, s[1], s[2])), 'time selection')
def inday(M, V, ck):
    """Ranges of time within a day, with a time near the ends of the range."""
    times(2455000.25, 2455000.75, M, V, ck)
def spans(M, V, ck):
    """Ranges of several days."""
    times(2455001., 2455003., M, V, ck)
def days(M, V, ck):
    """Ranges of time may be given as fractions of a day."""
    sel = V.choose('selection', [[('time', .25, .5)], [('time', 0., .125)], [('time', .5, .75, 0)], [('time', .25, .375), ('time', 2455000.75, 2455001.)]])
    box = begin(M); rs = [put(V, box, k, t=t) for k, t in enumerate([2455000.5, 2455000.75, 2455001., 2455000.625, 2455001.375])]; close(box)
    both(M, V, ck, rs, sel, seq(sel, lambda s, r: s[1] <= r.t[0] <= s[2] or s[1] <= (r.t[0] - .5) % 1 <= s[2]), 'time of day selection')
def lsts(M, V, ck):
    """Ranges of LST, also through zero."""
    sel = V.choose('selection', [[('lst', 1., 3.)], [('lst', 3., 1.)], [('lst', 1., 3., 0)], [('lst', 5., 1., 0)], [('lst', 1., 2.), ('lst', 4., 5.)]])
    box = begin(M, ('lst', 'd')); rs = [put(V, box, k, lst=dbl(V, 'l%d' % k)) for k in range(2)]; close(box)
    def match(s, r):
        x = r.vs['lst']; big = 1.7976931348623157e308
        return within(x, s[1], s[2]) if s[1] < s[2] else lor(within(x, s[1], big), within(x, -big, s[2]))
    both(M, V, ck, rs, sel, seq(sel, match), 'LST selection')
def ranges(M, V, ck):
    """Ranges of other variables of the record."""
    v, t = V.choose('variable', [('ra', 'd'), ('dec', 'd'), ('elevation', 'd'), ('dra', 'r'), ('ddec', 'r'), ('ra', 'r'), ('dec', 'r')]); nm = {'elevation': 'antel'}.get(v, v)
    sel = V.choose('selection', [[(v, .5, 1.25)], [(v, .5, 1.25, 0)], [(v, -1., 0.), (v, .1, .2)]])
    box = begin(M, (nm, t)); xs = [lowbyte(V, 'x%d' % k, k, t) for k in range(2)]
    rs = []
    for k, x in enumerate(xs): box[0][nm] = x[0]; rs.append(put(V, box, k)); rs[-1].x = x
    close(box)
    def match(s, r):
        if isinstance(r.x[0], (FB, ir.FX)):
            f = ir.tofp(r.x[0], 64); return ir.mk_b(z3.And(z3.fpGEQ(f, z3.FPVal(s[1], f.sort())), z3.fpLEQ(f, z3.FPVal(s[2], f.sort()))))
        return s[1] <= r.x[0] <= s[2]
    both(M, V, ck, rs, sel, seq(sel, match), v + ' selection')
def offset(v, M, V, ck):
    """Pointing offsets of several antennas: any one within the range; together with other kinds of selections."""
    sel = V.choose('selection', [[(v, .5, 1.25)], [(v, .5, 1.25, 0)]]); extra = V.choose('extra', [[], [('polarization', -5, 0)], [('visibility', 1, 2)]])
    po = V.choose('pols', [0, 1]) if extra and extra[0][0][0] == 'p' else 0; box = begin(M, (v, 'd'), ('pol', 'i')); rs = []
    for k in range(2):
        xs = [lowbyte(V, 'x%d%d' % (k, q), k, 'd') if q <= k else (fixed(.25) if k else fixed(1.)) for q in range(2)]; box[0][v] = f64arr(V, [x[0] for x in xs]); rs.append(put(V, box, k, pol=(-5, -6)[k] if po else (-6, -5)[k])); rs[-1].x = xs
    close(box)
    m = seq(sel, lambda s, r: lor(*[within(x, s[1], s[2]) for x in r.x]))
    both(M, V, ck, rs, extra + sel, lambda r: land(m(r), r.vs['pol'] == -5 if extra and extra[0][0] == 'polarization' else True), v + ' selection')
def azimuths(M, V, ck):
    """Pointing offsets in azimuth of several antennas: any one within the range; together with other kinds of selections."""
    offset('dazim', M, V, ck)
def elevations(M, V, ck):
    """The same in elevation."""
    offset('delev', M, V, ck)
def counts(M, V, ck):
    """By the number of the record."""
    sel = V.choose('selection', [[('visibility', 1, 2)], [('visibility', 2, 2)], [('visibility', 2, 9)], [('visibility', 2, 3, 0)], [('visibility', 1, 1), ('visibility', 3, 4)], [('visibility', 1, 4), ('visibility', 2, 2, 0)], [('visibility', 1, 4), ('visibility', 3, 9, 0), ('visibility', 5, 5)],
        [('visibility', 7, 9)], [('increment', 1, 0)], [('increment', 2, 0)], [('increment', 3, 0)], [('increment', 2, 0, 0)]])
    box = begin(M); rs = [put(V, box, k, n=V.choose('channels', [1, 3])) if not k else put(V, box, k) for k in range(5)]; close(box)
    both(M, V, ck, rs, sel, seq(sel, lambda s, r: s[1] <= r.k + 1 <= s[2] if s[0] == 'visibility' else r.k % s[1] == 0), 'record number selection')
def uvdist(M, V, ck):
    """By the distance from the origin of the u,v plane."""
    sel = V.choose('selection', [[('uvnrange', 1, 2)], [('uvnrange', 0, 5)], [('uvnrange', 1, 5, 0)], [('uvnrange', 0, 1), ('uvnrange', 4, 5)]])
    pts = V.choose('points', [[(3., 4.), (0., 1.), (0., 0.), (1.5, 0.)], [(-3., -4.), (3., 4.0001), (-.6, .8), (.6, .7)]])
    box = begin(M); rs = [put(V, box, k, uvw=[u, v, 7.]) for k, (u, v) in enumerate(pts)]; close(box)
    both(M, V, ck, rs, sel, seq(sel, lambda s, r: s[1]**2 <= r.uvw[0]**2 + r.uvw[1]**2 <= s[2]**2), 'u,v distance selection')
def decimate(M, V, ck):
    """Every n-th integration, from the k-th; integrations are runs of records with one time."""
    n = V.choose('n', [1, 2, 3, 4]); ph = V.choose('k', [0, 1, 2, 3]); how = V.choose('times', [(0, 0, 1, 1, 2), (0, 1, 2, 3, 4), (0, 1, 1, 1, 2)]); t0 = V.choose('first', [2455000.5, -1., 0.])
    box = begin(M); rs = [put(V, box, k, t=t0 + .25*q, ij=(0, k)) for k, q in enumerate(how)]; close(box)
    both(M, V, ck, rs, [('decimate', n, ph)], lambda r: (how[r.k] - ph) % n == 0, 'decimation')
def anytimes(M, V, ck):
    """Decimation of records with any times, equal or not."""
    n = V.choose('n', [2, 3]); ph = V.choose('k', [0, 1]); box = begin(M)
    base = V.choose('base', [2455000.5, -1.]); rs = []
    for k in range(3): rs.append(put(V, box, k, t=near(V, 't%d' % k, base, 8), ij=(0, k)))
    close(box); idx = -1; last = None
    for r in rs:
        if last is None or not keep(eqb(r.t[1], last)): idx += 1
        last = r.t[1]; r.idx = idx
    both(M, V, ck, rs, [('decimate', n, ph)], lambda r: (r.idx - ph) % n == 0, 'decimation')
def eqb(a, b): return ir.mk_b(a == b) if ir.isbv(a) else a == b
def combined(M, V, ck):
    """Selections of different kinds all hold; clauses are joined by or and and."""
    a = V.choose('first', [[('antennae', 0, 1)], [('auto', 0, 0, 0)], [('visibility', 1, 2)]]); b = V.choose('second', [[('polarization', -5, 0)], [('polarization', -5, 0, 0)], [('increment', 2, 0)]]); j = V.choose('join', ['', 'and', 'or', 'order'])
    box = begin(M, ('pol', 'i')); ps = [(0, 1), (0, 0), (1, 2), (0, 1)]
    rs = [put(V, box, k, ij=p, pol=anypol(V, 'p%d' % k)) for k, p in enumerate(ps[:3])]; close(box)
    m1 = seq(a, lambda s, r: m_ant(s, r) if s[0] in ('antennae', 'auto') else s[1] <= r.k + 1 <= s[2]); m2 = seq(b, lambda s, r: eqi(r.vs['pol'], s[1]) if s[0] == 'polarization' else r.k % 2 == 0)
    sel = b + a if j == 'order' else a + ([(j, 0, 0)] if j else []) + b
    both(M, V, ck, rs, sel, lambda r: (lor if j == 'or' else land)(m1(r), m2(r)), 'combined selections')
def clauses(M, V, ck):
    """Three clauses, taken from left to right; decimation counts the integrations that are left."""
    js = V.choose('joins', [('or', 'and'), ('and', 'or'), ('or', 'or')]); dec = V.choose('decimate', [0, 2])
    cs = [[('antennae', 0, 1)], [('polarization', -5, 0)], [('visibility', 2, 3)]]; order = V.choose('order', [(0, 1, 2), (2, 0, 1), (1, 2, 0)])
    box = begin(M, ('pol', 'i')); rs = [put(V, box, k, ij=p, pol=V.choose('p%d' % k, [-5, -6])) for k, p in enumerate([(0, 1), (0, 0), (0, 1), (1, 2)])]; close(box)
    m = [lambda r: m_ant(cs[0][0], r), lambda r: r.vs['pol'] == -5, lambda r: 2 <= r.k + 1 <= 3]
    sel = cs[order[0]] + [(js[0], 0, 0)] + cs[order[1]] + [(js[1], 0, 0)] + cs[order[2]]
    def want(r):
        c = m[order[0]](r)
        for j, o in zip(js, order[1:]): c = (c or m[o](r)) if j == 'or' else (c and m[o](r))
        return c
    left = [r for r in rs if want(r)]
    both(M, V, ck, rs, sel + ([('decimate', 2, 1)] if dec else []), lambda r: want(r) and (not dec or left.index(r) % 2 == 1), 'combined selections')
def midway(M, V, ck):
    """Selections made, and cleared, after some records were read apply to those that follow."""
    sel = V.choose('selection', [[('polarization', -5, 0)], [('antennae', 0, 1)], [('auto', 0, 0, 0)], [('visibility', 3, 3)], [('lst', 0., 1.)]]); n = V.choose('n', [1, 2])
    box = begin(M, ('pol', 'i'), ('lst', 'd')); rs = [put(V, box, k, ij=p, pol=V.choose('p%d' % k, [-5, -6]), lst=fixed(.75*k)) for k, p in enumerate([(0, 1), (0, 0), (0, 1), (1, 2)])]; close(box)
    m = lambda r: {'polarization': lambda: r.vs['pol'] == -5, 'antennae': lambda: r.ij == (0, 1), 'auto': lambda: r.ij[0] != r.ij[1], 'visibility': lambda: r.k == 2, 'lst': lambda: .75*r.k <= 1.}[sel[0][0]]()
    box = opened(M, N)
    for r in rs[:n]: box[0].read()
    for s in sel: box[0].select(*s)
    readall(ck, box, [r for r in rs[n:] if m(r)], 'selection made after some records'); box[0].rewind()
    readall(ck, box, [r for r in rs if m(r)], 'selection after rewinding'); box[0].select('clear', 0, 0); box[0].rewind(); readall(ck, box, rs, 'after clearing')
    close(box)
def refused(M, V, ck):
    """A selection that makes no sense is refused and changes nothing."""
    bad = V.choose('bad', [('time', 3., 3.), ('time', 4., 3.), ('visibility', 0, 3), ('visibility', 3, 2), ('increment', 0, 0), ('antennae', 2048, 0), ('antennae', 3, -3), ('antennae', 5000, 5000), ('uvnrange', 2, 1), ('uvnrange', -1, 1), ('decimate', 0, 0), ('decimate', -2, 0), ('window', 0, 0), ('ra', 2., 1.), ('shadow', 0, -1), ('bin', 0, 1), ('amplitude', 2, 1)])
    good = V.choose('good', [[], [('polarization', -5, 0)], [('antennae', 0, 1)], [('or', 0, 0), ('polarization', -5, 0)], [('decimate', 2, 0)]]); when = V.choose('when', [0, 1])
    box = begin(M, ('pol', 'i')); rs = [put(V, box, k, ij=p, pol=V.choose('p%d' % k, [-5, -6])) for k, p in enumerate([(0, 1), (0, 0), (1, 2)])]; close(box)
    box = opened(M, N)
    def no():
        try: box[0].select(*bad)
        except (RuntimeError, ValueError): return
        ck.true(False, 'a selection that makes no sense is refused')
    if not when: no()
    for s in good: box[0].select(*s)
    if when: no()
    def want(r): return all({'polarization': r.vs['pol'] == -5, 'antennae': r.ij == (0, 1), 'or': True, 'decimate': r.k % 2 == 0}[s[0]] for s in good)
    readall(ck, box, [r for r in rs if want(r)], 'selection next to a refused one'); close(box)
O = dict(stubs=ST, max_paths=1500, branch_ms=0, budget=(150, 900))
SCENARIOS = [Scenario(f.__name__, f, **O) for f in (inday, spans, antennas, large, polarizations, days, lsts, ranges, azimuths, elevations, counts, uvdist, decimate, anytimes, combined, clauses, midway, refused)]
