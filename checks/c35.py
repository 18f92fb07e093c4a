from vlib.harness import Scenario
from checks.hp import *
BOUNDS = 'maps of resolution 1 and 2, up to three additions or replacements in any order of up to three places each (with repeats), any positive or zero weights, any fluxes and up to two indices'
OUTSIDE = 'negative weights, longer histories, interpolated reading'
EXPLANATION = 'aipy.map.Map executed on symbolic fluxes, weights and indices against a per-pixel list of what was added.'
PX = [[3], [3, 8], [8, 8], [0, 3, 0]]
class Ref:
    def __init__(self, n, ni): self.w = [0] * n; self.f = [0] * n; self.i = [[0] * n for _ in range(ni)]
    def add(self, px, w, f, I):
        for k, p in enumerate(px):
            self.w[p] = self.w[p] + w[k]; self.f[p] = self.f[p] + w[k] * f[k]
            for q in range(len(I)): self.i[q][p] = self.i[q][p] + w[k] * I[q][k]
    def put(self, px, w, f, I):
        for p in set(px):
            self.w[p] = 0; self.f[p] = 0
            for q in range(len(I)): self.i[q][p] = 0
        self.add(px, w, f, I)
def step(M, V, m, ref, t, scheme, ni, op, kind, px, nside=1):
    w = V.array('w%d_' % t, (len(px),), 0, 10); f = V.array('f%d_' % t, (len(px),), -10, 10); I = [V.array('i%d%d_' % (t, q), (len(px),), -3, 3) for q in range(ni)]
    c = dirs(M, nside, scheme, px, kind)
    getattr(m, op)(c, w.copy(), f.copy(), [x.copy() for x in I]); getattr(ref, op)(px, w, f, I)
def verify(M, ck, m, ref, scheme, ni, nside, msg):
    n = 12 * nside**2; P = np.arange(n)
    w, f, I = m.get(P)
    ck.eq(list(w), ref.w, msg + ': accumulated weights'); ck.eq(list(f), ref.f, msg + ': accumulated weighted fluxes'); ck.eq(len(I), ni, 'as many indices')
    for q in range(ni): ck.eq(list(I[q]), ref.i[q], msg + ': accumulated weighted indices')
    r = m[dirs(M, nside, scheme, list(P), 'ang')]
    fl, J = (r, []) if ni == 0 else r
    ck.eq(len(J), ni, 'as many indices')
    for p in range(n):
        for got, tot in [(fl, ref.f)] + [(J[q], ref.i[q]) for q in range(ni)]:
            ok = (M.np.asarray(got)[p] * ref.w[p] == tot[p]) if M.symbolic else (abs(got[p] * ref.w[p] - tot[p]) < 1e-6)
            if isinstance(ref.w[p], int) and ref.w[p] == 0: ck.eq(got[p], 0, msg + ': zero where nothing was added')
            else: ck.true(ok, msg + ': reading gives the weighted mean')
def history(M, V, ck):
    """Two steps."""
    scheme = V.choose('scheme', ['RING', 'NEST']); ni = V.choose('ni', [0, 2]); ops = V.choose('ops', [('add', 'add'), ('put', 'add'), ('add', 'put')]); kind = V.choose('kind', ['px', 'ang'])
    px1 = V.choose('px1', PX); px2 = V.choose('px2', PX)
    m = M.map.Map(nside=1, scheme=scheme, nindices=ni); ref = Ref(12, ni)
    for t, (op, px) in enumerate(zip(ops, (px1, px2))): step(M, V, m, ref, t, scheme, ni, op, kind, px)
    verify(M, ck, m, ref, scheme, ni, 1, 'after two steps')
def three(M, V, ck):
    ni = V.choose('ni', [0, 1]); ops = V.choose('ops', [('add', 'add', 'add'), ('add', 'put', 'add')]); nside = 2
    m = M.map.Map(nside=nside, nindices=ni); ref = Ref(48, ni)
    for t, op in enumerate(ops): step(M, V, m, ref, t, 'RING', ni, op, 'ang', PX[t + 1], nside)
    verify(M, ck, m, ref, 'RING', ni, nside, 'after three steps')
def interpolating(M, V, ck):
    """Accumulation goes to the pixel of the direction also when the map is set to interpolate."""
    m = M.map.Map(nside=1, nindices=0, interp=True); ref = Ref(12, 0)
    for t in range(2): step(M, V, m, ref, t, 'RING', 0, V.choose('op%d' % t, ['add', 'put']), 'ang', [4, 9])
    ck.eq(list(m.wgt.get_map()), ref.w, 'weights'); ck.eq(list(m.map.get_map()), ref.f, 'fluxes')
def scalars(M, V, ck):
    """One place, scalar weight and flux."""
    m = M.map.Map(nside=1, nindices=1); c = V.choose('c', [7, 'ang']); c = tuple(float(x[0]) for x in dirs(M, 1, 'RING', [7], 'ang')) if c == 'ang' else c
    ref = Ref(12, 1)
    for t in range(2):
        w, f, i = V.real('w%d' % t, 0, 9), V.real('f%d' % t, -9, 9), V.real('i%d' % t, -3, 3)
        op = V.choose('op%d' % t, ['add', 'put']); getattr(m, op)(c, w, f, [i]); getattr(ref, op)([7], [w], [f], [[i]])
    verify(M, ck, m, ref, 'RING', 1, 1, 'scalars')
def broadcast(M, V, ck):
    """One weight for several places."""
    m = M.map.Map(nside=1); ref = Ref(12, 0); w = V.real('w', 0, 9); f = V.array('f', (3,), -9, 9); px = V.choose('px', [[1, 2, 3], [2, 2, 5]])
    m.add(np.array(px), w, f.copy()); m.add(np.array(px), w, f.copy())
    for _ in range(2): ref.add(px, [w] * 3, f, [])
    verify(M, ck, m, ref, 'RING', 0, 1, 'one weight for all')
def reset(M, V, ck):
    scheme = V.choose('scheme', ['RING', 'NEST']); ni = V.choose('ni', [0, 2]); new = V.choose('new', ['default', 'given'])
    m = M.map.Map(nside=1, scheme=scheme, nindices=ni); ref = Ref(12, ni)
    step(M, V, m, ref, 0, scheme, ni, 'add', 'px', [0, 3, 8])
    before = m[np.arange(12)]; before = [list(before)] if ni == 0 else [list(before[0])] + [list(x) for x in before[1]]
    w0 = list(m.wgt.get_map()); k = V.real('k', .1, 9)
    if new == 'default': m.reset_wgt(); k = 1
    else: m.reset_wgt(k)
    after = m[np.arange(12)]; after = [list(after)] if ni == 0 else [list(after[0])] + [list(x) for x in after[1]]
    for a, b in zip(after, before): ck.eq(a, b, 'resetting keeps every mean')
    for p in range(12):
        if p in (0, 3, 8):
            if w0[p] > 0: ck.eq(m.wgt[np.array([p])][0], k, 'positive weights become the given value')
            else: ck.eq(m.wgt[np.array([p])][0], 0, 'zero weights stay zero')
        else: ck.eq(m.wgt[np.array([p])][0], 0, 'zero weights stay zero')
def copied(M, V, ck):
    """A map initialised from another reads the same and keeps its own settings."""
    a, b = V.choose('a', ['RING', 'NEST']), V.choose('b', ['RING', 'NEST']); ni, nj = V.choose('ni', [0, 2]), V.choose('nj', [0, 1, 2])
    m = M.map.Map(nside=1, scheme=a, nindices=ni); ref = Ref(12, ni); step(M, V, m, ref, 0, a, ni, 'add', 'ang', [0, 3, 0]); step(M, V, m, ref, 1, a, ni, 'put', 'px', [9])
    m2 = M.map.Map(nside=1, scheme=b, nindices=nj); m2.from_map(m)
    d = dirs(M, 1, 'RING', list(range(12)), 'ang'); w, f, I = m.get(d); w2, f2, I2 = m2.get(d)
    ck.eq(list(w2), list(w), 'weights'); ck.eq(list(f2), list(f), 'fluxes'); ck.eq(len(I2), nj, 'as many indices as it has')
    for q in range(min(ni, nj)): ck.eq(list(I2[q]), list(I[q]), 'indices')
    ck.true(m2.scheme() == b and m.scheme() == a, 'orderings kept')
    x = V.real('x', 1, 9); m2.put(3, x, x, [x] * min(ni, nj)); w3, f3, I3 = m.get(d)
    ck.eq([list(w3), list(f3)], [list(w), list(f)], 'putting into the new map leaves the first one unchanged')
    for q in range(ni): ck.eq(list(I3[q]), list(I[q]), 'putting into the new map leaves the first one unchanged')
def nind(M, V, ck):
    """Changing the number of indices keeps those there are."""
    m = M.map.Map(nside=1, nindices=2); ref = Ref(12, 2); step(M, V, m, ref, 0, 'RING', 2, 'add', 'px', [1, 4])
    n = V.choose('n', [0, 1, 2, 3, None]); m.set_nindices(n); n = 2 if n is None else n
    w, f, I = m.get(np.arange(12)); ck.eq(len(I), n, 'number of indices')
    for q in range(n): ck.eq(list(I[q]), ref.i[q] if q < 2 else [0] * 12, 'indices kept, new ones zero')
    ck.eq(list(f), ref.f, 'fluxes kept')
SCENARIOS = [Scenario(g.__name__, g, stubs=HS, max_paths=600) for g in (history, three, interpolating, scalars, broadcast, reset, copied, nind)]
