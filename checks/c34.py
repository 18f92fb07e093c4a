from vlib.harness import Scenario
from checks.hp import *
BOUNDS = 'maps of resolution 1, 2 and 4 with any contents, all four pairs of orderings; regridding between resolutions 1, 2 and 4'
OUTSIDE = 'the pixel geometry itself, which healpy computes'
EXPLANATION = 'change_scheme and from_hpm executed on symbolic maps; values are compared direction by direction.'
def mkmap(M, V, nside, scheme, name='m'):
    """A map and the value it has at each RING pixel."""
    m = M.healpix.HealpixMap(nside=nside, scheme=scheme); n = 12 * nside**2
    d = V.array(name, (n,), -100, 100); m.set_map(d.copy(), scheme=scheme)
    r = list(d) if scheme == 'RING' else [d[int(k)] for k in hpy(M).ring2nest(nside, np.arange(n))]
    return m, d, r
def change(M, V, ck):
    nside = V.choose('nside', [1, 2, 4]); a = V.choose('from', ['RING', 'NEST']); b = V.choose('to', ['RING', 'NEST'])
    m, d, r = mkmap(M, V, nside, a)
    same_sky(M, ck, m, nside, r, 'the map as given')
    m.change_scheme(b)
    ck.true(m.scheme() == b, 'the ordering is the requested one'); ck.eq(m.nside(), nside, 'same resolution')
    same_sky(M, ck, m, nside, r, 'same value in every direction after reordering')
    x = V.real('x', -100, 100); m[np.array([1.1]), np.array([2.2])] = x
    p = int(hpy(M).ang2pix(nside, 1.1, 2.2)); r2 = list(r); r2[p] = x
    same_sky(M, ck, m, nside, r2, 'assigning after reordering')
    m[np.array([1.1]), np.array([2.2])] = r[p]
    m.change_scheme(a)
    ck.true(m.scheme() == a, 'the ordering is the first one again'); ck.eq(list(m.get_map()), list(d), 'changing back restores the map')
def copymap(M, V, ck):
    nside = V.choose('nside', [1, 2, 4]); a = V.choose('from', ['RING', 'NEST']); b = V.choose('to', ['RING', 'NEST']); it = V.choose('it', [False, True])
    s, d, r = mkmap(M, V, nside, a); m, _, _ = mkmap(M, V, nside, b, 'old'); s.set_interpol(it)
    m.from_hpm(s)
    ck.true(m.scheme() == b, 'the receiving map keeps its ordering'); ck.eq(m.nside(), nside, 'and resolution')
    same_sky(M, ck, m, nside, r, 'same value in every direction')
    ck.eq(list(s.get_map()), list(d), 'the source is unchanged'); ck.true(s.scheme() == a, 'the source keeps its ordering'); ck.true(bool(s._use_interpol) == it, 'the source keeps its interpolation setting')
    x = V.real('x', -100, 100); m[np.array([0, 5])] = V.arr([x, x])
    ck.eq(list(s.get_map()), list(d), 'assigning to the new map leaves the source unchanged')
    m.from_hpm(s); m[np.array([7])] = V.arr([x]); m[4] = x      # single places are assigned in place
    ck.eq(list(s.get_map()), list(d), 'assigning one place of the new map leaves the source unchanged')
    m.from_hpm(s); s[3] = x
    same_sky(M, ck, m, nside, r, 'changing the source afterwards leaves the new map unchanged')
def regrid(M, V, ck):
    """Other resolutions: coarser source is interpolated, finer source is summed per pixel; the source is left alone."""
    ns, nm = V.choose('res', [(1, 2), (2, 4), (2, 1), (4, 2)]); a = V.choose('from', ['RING', 'NEST']); b = V.choose('to', ['RING', 'NEST']); h = hpy(M)
    s, d, r = mkmap(M, V, ns, a); m, _, _ = mkmap(M, V, nm, b, 'old')
    m.from_hpm(s)
    ck.true(m.scheme() == b, 'ordering kept'); ck.eq(m.nside(), nm, 'resolution kept')
    ck.eq(list(s.get_map()), list(d), 'the source is unchanged'); ck.true(s.scheme() == a, 'the source keeps its ordering'); ck.true(not s._use_interpol, 'the source keeps its interpolation setting')
    if ns < nm:
        th, ph = h.pix2ang(nm, np.arange(12 * nm**2)); px, w = h.get_interp_weights(ns, th, ph)
        exp = [sum(r[int(px[j, k])] * float(w[j, k]) for j in range(4)) for k in range(12 * nm**2)]
    else:
        th, ph = h.pix2ang(ns, np.arange(12 * ns**2)); px = h.ang2pix(nm, th, ph); exp = [0] * (12 * nm**2)
        for k, p in enumerate(px): exp[int(p)] = exp[int(p)] + r[k]
    th, ph = [np.array(F(c)) for c in h.pix2ang(nm, np.arange(12 * nm**2))]
    ck.close(list(m[th, ph]), exp, 'values after regridding')
def indices(M, V, ck):
    """Translating pixel numbers."""
    nside = V.choose('nside', [1, 2, 4]); a = V.choose('from', ['RING', 'NEST']); b = V.choose('to', ['RING', 'NEST']); n = 12 * nside**2
    m = M.healpix.HealpixBase(nside, a); px = m.nest_ring_conv(np.arange(n), b); h = hpy(M)
    v1 = h.pix2vec(nside, np.arange(n), nest=a == 'NEST'); v2 = h.pix2vec(nside, np.asarray(px), nest=b == 'NEST')
    ck.eq(F(v1), F(v2), 'translated numbers name the same directions')
SCENARIOS = [Scenario(g.__name__, g, stubs=HS, max_paths=600) for g in (change, copymap, regrid, indices)]
