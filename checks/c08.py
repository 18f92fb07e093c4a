from vlib.harness import Scenario
from checks.uvlib import *
from checks.c05 import value, same, NM
from checks.c06 import values, agree, ITEMS
BOUNDS = 'data sets of up to 4 records of up to 3 channels with arbitrary data and flags; a variable of every type with any value, assigned or not before each record; header items of every kind with arbitrary values; overriding and excluding any of them; every outcome of the filter for each record, with or without separate flags; all antenna, polarization and decimation selections listed; several copies of one data set; copying from the middle; copying a copy'
OUTSIDE = 'longer data sets; the items that the library itself derives (obstype and vartable)'
EXPLANATION = 'The LLVM IR of the compiled module and the executed miriad.py (init_from_uv, pipe) copy data sets on an in-memory file system; the copy is read back and compared with what was written.'
EXACT_BITS = True
A, B = 'a.uv', 'b.uv'
class Rec: pass
def put(V, box, k, n=1, ij=(0, 1), t=None, data=None):
    r = Rec(); d, r.bits = data or spectrum(V, 'd%d' % k, n); r.mask = mask(V, 'm%d' % k, n); r.ij, r.t, r.u = ij, 2455000.5 + k if t is None else t, k + 1.
    r.vals = {}
    box[0].write((np.array([r.u, 2., 3.]), r.t, ij), masked(V, d, r.mask)); return r
def record(ck, got, r, what):
    (uvw, t, ij), d = got
    ck.true(float(elems(uvw)[0]) == r.u and float(elems(uvw)[1]) == 2. and float(elems(uvw)[2]) == 3., what + ': coordinates'); ck.true(float(t) == r.t, what + ': time'); ck.true(tuple(ij) == r.ij, what + ': antennas')
    s = sbits(d); ck.true(len(s) == len(r.bits), what + ': channels')
    for x, y in zip(s, r.bits): ck.bits(x, y, what + ': data')
    for x, y in zip(flags(d), r.mask): ck.eq(x, y, what + ': flags')
def variables(ck, box, r, types, what):
    for v, b in r.vals.items():
        if b is not None: same(ck, types[v], box[0][v], b, what + ': variable in force')
        else: ck.raises(RuntimeError, lambda: box[0][v], what + ': variable without a value')
def check(ck, name, rs, types, what, absent=(), items=()):
    box = opened(M_.M, name)
    for v in types: ck.true(box[0].vartable.get(v) == types[v], what + ': variable listed with its type')
    for v in absent: ck.true(v not in box[0].vars() and v not in box[0].items(), what + ': nothing of what is excluded')
    n = 0
    for r in rs:
        try: g = box[0].read()
        except IOError: ck.true(False, what + ': a record is missing'); close(box); return
        record(ck, g, r, what); variables(ck, box, r, types, what)
    ck.raises(IOError, lambda: box[0].read(), what + ': no more records')
    close(box)
class M_: pass
def copy(M, src, dst, override={}, exclude=[], sel=(), f=None, raw=False, hist='', corrmode='r', before=None):
    M_.M = M
    i = opened(M, src)
    for s in sel: i[0].select(*s)
    if before: before(i)
    o = opened(M, dst, status='new', corrmode=corrmode)
    o[0].init_from_uv(i[0], override=override, exclude=exclude)
    kw = dict(mfunc=f) if f else {}
    if raw and not f: kw = dict(mfunc=lambda uv, p, d, g: (p, d, g))
    o[0].pipe(i[0], raw=raw, append2hist=hist, **kw)
    close(o); close(i)
def source(M, V, types, plan, ns=None, ijs=None, ts=None, status='new', corrmode='r', data=None):
    """plan: for each record, the numbers of values assigned to the variables before it (None: not assigned)."""
    box = opened(M, A, status='new', corrmode=corrmode); rs = []; cur = dict.fromkeys(types)
    for v, t in types.items(): box[0].add_var(v, t)
    for k, p in enumerate(plan):
        for v, n in p.items():
            if n is None: continue
            x, cur[v] = value(V, types[v], n, '%s%d_' % (v, k)); box[0][v] = x
        rs.append(put(V, box, k, n=(ns or [1]*9)[k], ij=(ijs or [(0, 1)]*9)[k], t=ts and ts[k], data=data and data(k))); rs[-1].vals = dict(cur)
    close(box); return rs
def plain(M, V, ck):
    """A variable of each type, assigned or not before each record, and a clone."""
    t = V.choose('type', ['i', 'j', 'r', 'd', 'c', 'a']); n = {'a': 3}.get(t, 1); v = NM[t]; raw = V.choose('raw', [False, True])
    plan = V.choose('plan', [(n, n), (n, None), (n, n + 2), (None, n), (None, None, n), (n + 2, n, None)] if not raw else [(n, n), (None, n)])
    rs = source(M, V, {v: t}, [{v: p} for p in plan]); copy(M, A, B, raw=raw)
    check(ck, B, rs, {v: t}, 'clone')
    if not raw: check(ck, A, rs, {v: t}, 'the original')
def lengths(M, V, ck):
    """Records of different lengths, and a copy of the copy."""
    ns = V.choose('lengths', [(3, 1), (1, 3), (1, 2, 1)]); raw = V.choose('raw', [False, True]); twice = V.choose('twice', [False, True])
    rs = source(M, V, {}, [{}]*len(ns), ns=ns); copy(M, A, B, raw=raw)
    if twice: copy(M, B, 'c.uv', raw=raw)
    check(ck, 'c.uv' if twice else B, rs, {}, 'clone')
def override(M, V, ck):
    """An overridden variable has the given value in every record, an excluded one is not there, all others are as they were."""
    t = V.choose('type', ['i', 'r', 'd', 'a', 'c', 'j']); n = {'a': 3}.get(t, 1); v = NM[t]; w = 'freq' if t == 'd' else 'lst'
    what = V.choose('what', ['override', 'exclude', 'longer']); raw = V.choose('raw', [False, True]) if what == 'override' else False
    plan = V.choose('plan', [(n, n), (n, None), (None, n)] if what == 'override' and not raw else [(n, n)])
    rs = source(M, V, {v: t, w: 'd'}, [{v: p, w: 1 if k == 0 or what == 'exclude' else None} for k, p in enumerate(plan)])
    if what == 'exclude':
        copy(M, A, B, exclude=[v])
        for r in rs: del r.vals[v]
        check(ck, B, rs, {w: 'd'}, 'copy with exclusion', absent=[v]); return
    x, b = value(V, t, n + (2 if what == 'longer' else 0), 'o'); copy(M, A, B, override={v: x}, raw=raw)
    for r in rs: r.vals[v] = b
    check(ck, B, rs, {v: t, w: 'd'}, 'copy with an override')
def items(M, V, ck):
    """Header items are copied, overridden or left out."""
    what = V.choose('what', ['copy', 'override', 'exclude']); n = V.choose('n', [1, 3, 9]); at = V.choose('item', ['i', 'd', 'c'])
    box = opened(M, A, status='new'); h, hb = text(V, 'h', 5); box[0]['history'] = h; bits = {}
    for t in 'idc':
        xs, bits[t] = values(V, t, n if t == at else 2, t); box[0][ITEMS[t][0]] = xs[0] if len(xs) == 1 else xs
    r = put(V, box, 0); close(box); nm = ITEMS[at][0]; kw = {}
    if what == 'override': xs, bits[at] = values(V, at, V.choose('m', [1, 2]), 'o'); kw = dict(override={nm: xs[0] if len(xs) == 1 else xs})
    if what == 'exclude': kw = dict(exclude=[nm])
    copy(M, A, B, **kw)
    box = opened(M, B)
    for t in 'idc':
        i = ITEMS[t][0]
        if what == 'exclude' and t == at: ck.true(i not in box[0].items(), 'the excluded item is not there'); continue
        ck.true(i in box[0].items(), 'the item is there'); agree(V, ck, t, box[0][i], bits[t], 'item of the copy')
    g = tbits(box[0]['history']); ck.true(len(g) == len(hb), 'history: length')
    for x, y in zip(g, hb): ck.bits(x, y, 'history')
    close(box); check(ck, B, [r], {}, 'copy with items')
def freqs(M, V, ck):
    """The item of mixed integers and numbers."""
    n = V.choose('n', [1, 2]); box = opened(M, A, status='new'); v = [n]; b = []
    for k in range(n):
        for t in 'idd':
            (x, y) = (i32(V, 'i%d' % k),)*2 if t == 'i' else dbl(V, 'f%d' % len(v)); v.append(x); b.append((t, y))
    box[0]['freqs'] = v; r = put(V, box, 0); close(box); copy(M, A, B)
    box = opened(M, B); g = box[0]['freqs']; ck.true(len(g) == len(v) and int(g[0]) == n, 'frequencies: number')
    for x, (t, y) in zip(list(g)[1:], b): agree(V, ck, t, x, [y], 'frequencies of the copy')
    close(box)
def history(M, V, ck):
    """The given text is appended to the history, if there is one."""
    n = V.choose('n', [None, 0, 4]); m = V.choose('m', [0, 3]); how = V.choose('how', ['plain', 'exclude', 'override'])
    box = opened(M, A, status='new'); h, hb = text(V, 'h', n or 0)
    if n is not None: box[0]['history'] = h
    r = put(V, box, 0); close(box); s, sb = text(V, 's', m)
    if how == 'override':
        o, ob = text(V, 'o', 2); copy(M, A, B, override={'history': o}, hist=s)
        want = ob + sb if n is not None else None
    else: copy(M, A, B, exclude=['history'] if how == 'exclude' else [], hist=s); want = sb if how == 'exclude' else (hb if n else []) + sb
    check(ck, B, [r], {}, 'copy with a history')
    if want is None: return
    box = opened(M, B)
    if want:
        g = tbits(box[0]['history']); ck.true(len(g) == len(want), 'history: length')
        for x, y in zip(g, want): ck.bits(x, y, 'history')
    close(box)
def filters(M, V, ck):
    """The filter leaves out any of the records; variables stay those of the record."""
    keep = [V.choose('keep%d' % k, [True, False]) for k in range(3)]
    plan = V.choose('plan', [(1, 1, None), (1, None, 1), (None, 1, None)]); raw = V.choose('raw', [False, True]) if plan[2] is None and plan[0] else False
    rs = source(M, V, {'lst': 'd'}, [{'lst': p} for p in plan], ijs=[(0, 1), (0, 2), (1, 2)]); n = [0]; seen = []
    def f(uv, p, d, *g):
        k = n[0]; n[0] += 1; seen.append(tuple(p[2]))
        return (p, d if keep[k] else None) + (g if keep[k] or not raw else g)
    if not any(keep):
        i = opened(M, A); o = opened(M, B, status='new'); o[0].init_from_uv(i[0]); o[0].pipe(i[0], mfunc=f, raw=raw); close(o); close(i)
        ck.true(seen == [r.ij for r in rs], 'the filter sees every record'); return
    copy(M, A, B, f=f, raw=raw)
    ck.true(seen == [r.ij for r in rs], 'the filter sees every record')
    check(ck, B, [r for k, r in enumerate(rs) if keep[k]], {'lst': 'd'}, 'filtered copy')
def rewritten(M, V, ck):
    """What the filter returns is what is written, also its coordinates and length."""
    raw = V.choose('raw', [False, True]); m = V.choose('length', [1, 2, 3]); how = V.choose('which', [(1, 0), (0, 1), (1, 1)]); rs = source(M, V, {'lst': 'd'}, [{'lst': 1}, {'lst': 1}], ns=(2, 2)); n = [0]
    new = []
    for k in range(2):
        d, b = spectrum(V, 'n%d' % k, m); new.append((d, b, mask(V, 'q%d' % k, m)))
    def f(uv, p, d, *g):
        k = n[0]; n[0] += 1
        if not how[k]: return (p, d) + g
        q = (np.array([7. + k, 2., 3.]), 2455009.5 + k, (3, 4))
        return (q, new[k][0], flagarr(V, new[k][2])) if raw else (q, masked(V, new[k][0], new[k][2]))
    copy(M, A, B, f=f, raw=raw)
    for k, r in enumerate(rs):
        if how[k]: r.bits, r.mask, r.u, r.t, r.ij = new[k][1], new[k][2], 7. + k, 2455009.5 + k, (3, 4)
    check(ck, B, rs, {'lst': 'd'}, 'copy by a filter')
def flagarr(V, m):
    if V.symbolic:
        o = np.empty(len(m), dtype=object)
        for k, x in enumerate(m): o[k] = x
        return o.view(snp.SArr)
    return np.array(m, dtype=bool)
def assigned(M, V, ck):
    """A filter may assign an overridden variable in each record."""
    rs = source(M, V, {'lst': 'd', 'pol': 'i'}, [{'lst': 1, 'pol': 1}, {'lst': None, 'pol': None}]); M_.M = M; n = [0]
    i = opened(M, A); o = opened(M, B, status='new'); new = [value(V, 'd', 1, 'n%d' % k) for k in range(2)]; first = value(V, 'd', 1, 'o')
    o[0].init_from_uv(i[0], override={'lst': first[0]}); which = V.choose('which', [(1, 1), (0, 1), (1, 0)]); raw = which == (0, 1)
    def f(uv, p, d, *g):
        if which[n[0]]: o[0]['lst'] = new[n[0]][0]
        n[0] += 1; return (p, d) + g
    o[0].pipe(i[0], mfunc=f, raw=raw); close(o); close(i); b = first[1]
    for k, r in enumerate(rs):
        if which[k]: b = new[k][1]
        r.vals['lst'] = b
    check(ck, B, rs, {'lst': 'd', 'pol': 'i'}, 'copy with an assigned variable')
def selected(M, V, ck):
    """With a selection on the input, the copy holds those records, with the variables of each even where they changed in a record that is not copied."""
    sel, ks = V.choose('selection', [([('decimate', 2, 0)], (0, 2)), ([('decimate', 2, 1)], (1, 3)), ([('decimate', 3, 0)], (0, 3)), ([('decimate', 3, 2)], (2,)), ([('antennae', 0, 2)], (1,)), ([('antennae', 0, -1)], (0, 1)), ([('visibility', 2, 3)], (1, 2)), ([('antennae', 0, -1), ('decimate', 2, 1)], (1,)), ([('auto', 0, 0)], (3,))])
    plan = V.choose('plan', [(1, 1, None, None), (None, 1, None, 1), (1, None, 1, None)])
    rs = source(M, V, {'lst': 'd'}, [{'lst': p} for p in plan], ijs=[(0, 1), (0, 2), (1, 2), (1, 1)]); raw = plan[0] is None
    copy(M, A, B, sel=sel, raw=raw); check(ck, B, [rs[k] for k in ks], {'lst': 'd'}, 'copy of a selection')
def middle(M, V, ck):
    """A copy that starts after some records holds the others."""
    m = V.choose('read before', [1, 2]); plan = V.choose('plan', [(1, None, None), (1, 1, None), (None, 1, None), (1, 1, 1), (None, None, 1)])
    rs = source(M, V, {'lst': 'd'}, [{'lst': p} for p in plan])
    copy(M, A, B, before=lambda i: [i[0].read() for _ in range(m)]); check(ck, B, rs[m:], {'lst': 'd'}, 'copy of the rest')
def together(M, V, ck):
    """Several copies of one data set, one after the other or record by record, each with overrides and exclusions of its own."""
    plan = V.choose('plan', [(1, 1), (1, None), (None, 1)]); how = V.choose('how', ['after', 'both', 'mixed']); second = V.choose('second', ['override', 'exclude', 'same']); swap = V.choose('swap', [0, 1])
    rs = source(M, V, {'lst': 'd', 'pol': 'i'}, [{'lst': p, 'pol': None if k else 1} for k, p in enumerate(plan)]); M_.M = M; x, b = value(V, 'd', 1, 'o')
    kws = [{}, {'override': {'lst': x}} if second == 'override' else {'exclude': ['lst']} if second == 'exclude' else {}]; names = [B, 'c.uv']
    if swap: kws = kws[::-1]; names = names[::-1]
    i = opened(M, A)
    if how == 'after':
        for nm, kw in zip(names, kws):
            o = opened(M, nm, status='new'); o[0].init_from_uv(i[0], **kw); o[0].pipe(i[0]); close(o); i[0].rewind()
    else:
        os_ = []
        for nm, kw in zip(names, kws): os_.append(opened(M, nm, status='new')); os_[-1][0].init_from_uv(i[0], **kw)
        for p, d in i[0].all():
            for o in (os_ if how == 'both' else os_[::-1]): o[0].copyvr(i[0]); o[0].write(p, d)
        for o in os_: close(o)
    close(i)
    lead = how == 'after' and plan[0] is None              # after a whole pass the variable has a value
    if not (lead and swap): check(ck, B, rs, {'lst': 'd', 'pol': 'i'}, 'first copy')
    if lead and second == 'same' and not swap: return
    for r in rs:
        if second == 'override': r.vals['lst'] = b
        if second == 'exclude': del r.vals['lst']
    check(ck, 'c.uv', rs, {'pol': 'i'} if second == 'exclude' else {'lst': 'd', 'pol': 'i'}, 'second copy', absent=['lst'] if second == 'exclude' else ())
def packed(M, V, ck):
    """From and to 16-bit storage."""
    i, o = V.choose('modes', [('j', 'r'), ('r', 'j'), ('j', 'j')]); flip = V.choose('values', [0, 1, 2])
    D = [[1., -.5, .25, 32767 / 32768.], [32767., -32767., 1., 0.], [0., 0., 0., 0.]][flip]
    def data(k):
        d = np.array([complex(D[0], D[1]), complex(D[2], 0)], dtype=np.complex64) * (k + 1); return d, sbits(d)
    rs = source(M, V, {'lst': 'd'}, [{'lst': 1}, {'lst': 1}], ns=(2, 2), data=data, corrmode=i); copy(M, A, B, corrmode=o); M_.M = M
    a, b = opened(M, A), opened(M, B)
    for r in rs:
        (ua, ta, ia), da = a[0].read(); (ub, tb, ib), db = b[0].read(); ck.true(ia == ib == r.ij and float(ta) == float(tb) == r.t, 'record of the copy')
        for x, y in zip(flags(db), r.mask): ck.eq(x, y, 'flags of the copy')
        for bx in (a, b): variables(ck, bx, r, {'lst': 'd'}, 'copy')
        top = max(abs(x) for x in D)*(r.u)
        for x, y in zip(elems(db.data if hasattr(db, 'data') and not isinstance(db, np.ndarray) else np.ma.getdata(db)), elems(da.data if not isinstance(da, np.ndarray) else np.ma.getdata(da))):
            for p, q in zip(cparts(x), cparts(y)): ck.true(abs(num(p) - num(q)) <= (top / 32767 * 1.01 if o == 'j' else 0.), 'data of the copy')
    close(a); close(b)
def num(x): 
    if isinstance(x, (FB, ir.FX)): return struct.unpack('<f', struct.pack('<I', int(b32(x) if not ir.isbv(b32(x)) else z3.simplify(b32(x)).as_long())))[0]
    return float(x)
O = dict(stubs=ST, max_paths=1500, branch_ms=0, budget=(150, 900))
SCENARIOS = [Scenario(f.__name__, f, **O) for f in (plain, lengths, override, items, freqs, history, filters, rewritten, assigned, selected, middle, together, packed)]
