from vlib.harness import Scenario
from checks.hp import *
BOUNDS = 'orders up to lmax 4 with every mmax up to lmax, any coefficients, every pair of places; maps of resolution 1 and 2'
OUTSIDE = 'larger orders, indices that name no coefficient, the accuracy of the transform itself'
EXPLANATION = 'Alm executed on symbolic complex coefficients with the place index computed by healpy.'
def lms(L, Mm): return [(l, m) for m in range(Mm + 1) for l in range(m, L + 1)]
def mk(M, V):
    L, mm = V.choose('lm', [(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 0), (3, 2), (4, 4), (4, 1)])
    return M.healpix.Alm(L, mm), lms(L, mm), L, mm
def places(M, V, ck):
    a, P, L, mm = mk(M, V); n = len(P)
    ck.eq(a.size(), n, 'one place per valid (l,m)'); ck.eq([a.lmax(), a.mmax()], [L, mm], 'orders as given')
    ck.eq(list(a.get_data()), [0] * n, 'new coefficients are zero')
    I = a.lm_indices(); ck.shape(I, (n, 2), 'one index entry per coefficient')
    ck.true(sorted(tuple(int(v) for v in x) for x in I) == sorted(P), 'the index list names every (l,m) once')
    d = V.carray('d', (n,)); a.set_data(d.copy())
    ck.eq(list(a.get_data()), list(d), 'setting all data and reading gives them back')
    for k, (l, m) in enumerate(I): ck.eq(a[int(l), int(m)], d[k], 'the index list is in the order of the data')
    j = V.cint('j', 0, n - 1); v = V.cplx('v'); l, m = [int(x) for x in I[j]]
    a[l, m] = v
    ck.eq(a[l, m], v, 'a coefficient reads back as set')
    e = list(d); e[j] = v; ck.eq(list(a.get_data()), e, 'setting one changes only it')
    for k, (l, m) in enumerate(I): ck.eq(a[int(l), int(m)], e[k], 'every other place is unchanged')
    a.set_to_zero(); ck.eq(list(a.get_data()), [0] * n, 'cleared')
def separate(M, V, ck):
    """Distinct places hold distinct values, whatever the order of setting."""
    a, P, L, mm = mk(M, V); v = {p: V.cplx('v%d%d' % p) for p in P}
    for p in (P if V.choose('o', [0, 1]) else P[::-1]): a[p] = v[p]
    for p in P: ck.eq(a[p], v[p], 'every coefficient keeps its own place')
    b = M.healpix.Alm(L, mm); ck.eq(list(b.get_data()), [0] * len(P), 'objects do not share coefficients')
def refused(M, V, ck):
    a, P, L, mm = mk(M, V); n = len(P); k = V.cint('k', 0, 20); d = V.carray('d', (n,)); a.set_data(d.copy())
    if k == n: return
    ck.raises((AssertionError, ValueError), lambda: a.set_data(V.arr([V.real('x')] * k) if k else np.zeros(0)), 'sizes that do not match are refused')
    ck.eq(list(a.get_data()), list(d), 'and nothing changes')
    ck.raises((AssertionError, ValueError), lambda: M.healpix.Alm(L, L + 1), 'mmax above lmax is refused')
def copies(M, V, ck):
    """The given array stays the caller's."""
    a, P, L, mm = mk(M, V); d = V.carray('d', (len(P),)); keep = list(d); a.set_data(d); a[0, 0] = V.cplx('v')
    ck.eq(list(d), keep, 'setting a coefficient leaves the given data alone')
def tomap(M, V, ck):
    """The map of coefficients: linear, the (0,0) term is a constant, and every place feeds its own harmonic."""
    import healpy
    L, mm = V.choose('lm', [(1, 1), (2, 2), (2, 1)]); nside = V.choose('nside', [1, 2]); a = M.healpix.Alm(L, mm); P = lms(L, mm)
    p = P[V.cint('p', 0, len(P) - 1)]; v = V.cplx('v', -5, 5); a[p] = v; r = a.to_map(nside)
    ck.eq(len(r), 12 * nside**2, 'pixels')
    e = np.zeros(len(P), dtype=complex); out = []
    k = int(healpy.Alm.getidx(L, *p))
    e[k] = 1; y1 = healpy.alm2map(e.copy(), nside, lmax=L, mmax=mm); e[k] = 1j; y2 = healpy.alm2map(e, nside, lmax=L, mmax=mm)
    re, im = (v.real, v.imag)
    ck.close(list(r), [re * float(y1[q]) + im * float(y2[q]) for q in range(12 * nside**2)], 'the map of one coefficient is its harmonic')
    h = M.healpix.HealpixMap(nside=nside, scheme=V.choose('s', ['RING', 'NEST'])); h.from_alm(a)
    th, ph = [np.array(F(c)) for c in healpy.pix2ang(nside, np.arange(12 * nside**2))]
    ck.eq(list(h[th, ph]), list(r), 'a sky map made from coefficients has these values')
SCENARIOS = [Scenario(g.__name__, g, stubs=HS, max_paths=600) for g in (places, separate, refused, copies, tomap)]
