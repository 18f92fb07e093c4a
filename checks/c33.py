from vlib.harness import Scenario
from checks.hp import *
BOUNDS = 'maps of resolution 1, 2 and 4 in both orderings; any old contents and any assigned values; up to 4 pixels or directions per call including repeated ones; every list length from 0 to 60 for the size check'
OUTSIDE = 'which pixel a direction belongs to and the interpolation weights, which healpy computes'
EXPLANATION = 'HealpixMap item access executed on symbolic contents and values; the pixel of each direction comes from healpy, the compiled accumulation is its contract (C12 decides the compiled code).'
PIX = {1: [[0], [3, 3], [4, 7], [2, 2, 2], [5, 0, 5], [11, 1, 0, 11]], 2: [[17], [0, 47], [6, 6, 30], [1, 40, 1, 40]], 4: [[191, 0, 191]]}

def start(M, V, nside, scheme, **k):
    m = M.healpix.HealpixMap(nside=nside, scheme=scheme, **k)
    ck0 = V.array('m', (12*nside**2,), -100, 100); m.set_map(ck0.copy(), scheme=scheme)
    return m, list(ck0)
def access(M, V, ck):
    """Assign at up to 4 places in one call: sums at repeated ones, the rest untouched."""
    nside = V.choose('nside', [1, 2, 4]); scheme = V.choose('scheme', ['RING', 'NEST']); px = V.choose('px', PIX[nside] if nside > 1 else PIX[1]); kind = V.choose('kind', ['px', 'ang', 'vec'])
    m, old = start(M, V, nside, scheme)
    crd = dirs(M, nside, scheme, px, kind); v = V.array('v', (len(px),), -100, 100)
    m[crd] = v.copy()
    exp = list(old)
    for p in set(px): exp[p] = sum(v[k] for k in range(len(px)) if px[k] == p)
    ck.eq(list(m.get_map()), exp, 'assignment stores the sum at each addressed pixel and keeps the others')
    ck.eq(list(m[crd]), [exp[p] for p in px], 'reading at the same places gives what was stored')
    ck.eq(list(m[np.arange(12*nside**2)]), exp, 'reading every pixel')
    P = np.arange(12*nside**2)
    for c in (m.px2crd(P), m.px2crd(P, ncrd=3), m.px2crd(P, ncrd=2)): ck.eq(list(m[tuple(np.array(F(x)) for x in c)]), exp, 'reading in the direction of every pixel')
    m[crd] = v.copy() * 2
    ck.eq(list(m[crd]), [2 * exp[p] for p in px], 'a second assignment replaces the first')
    ck.eq([m.nside(), m.npix()], [nside, 12 * nside**2], 'size unchanged'); ck.true(m.scheme() == scheme, 'ordering unchanged')
def single(M, V, ck):
    """Scalars and one-element assignments."""
    scheme = V.choose('scheme', ['RING', 'NEST']); kind = V.choose('kind', ['px', 'pxscalar', 'ang', 'angscalar', 'vec']); p = V.choose('p', [0, 20, 47]); vk = V.choose('vk', ['scalar', 'array'])
    m, old = start(M, V, 2, scheme); v = V.real('v', -100, 100)
    c = dirs(M, 2, scheme, [p], kind.replace('scalar', ''))
    if kind == 'pxscalar': c = p
    if kind == 'angscalar': c = tuple(float(x[0]) for x in c)
    m[c] = v if vk == 'scalar' else V.arr([v])
    exp = list(old); exp[p] = v
    ck.eq(list(m.get_map()), exp, 'only the addressed pixel changes')
    ck.eq(list(m[c]) if np.ndim(m[c]) else [m[c]], [v], 'and it reads back')
def increments(M, V, ck):
    """map[c] += v at distinct places, again and again."""
    scheme = V.choose('scheme', ['RING', 'NEST']); kind = V.choose('kind', ['px', 'ang'])
    m, old = start(M, V, 1, scheme); px = [2, 9, 5]; c = dirs(M, 1, scheme, px, kind)
    a, b = V.array('a', (3,), -100, 100), V.array('b', (3,), -100, 100)
    m[c] += a; m[c] += b
    for k, p in enumerate(px): old[p] = old[p] + a[k] + b[k]
    ck.eq(list(m.get_map()), old, 'increments accumulate')
def interp(M, V, ck):
    """Reading with interpolation: the mean of four pixels weighted as healpy says, constants preserved."""
    nside = V.choose('nside', [1, 2]); scheme = V.choose('scheme', ['RING', 'NEST']); xyz = V.choose('xyz', [False, True])
    m, old = start(M, V, nside, scheme, interp=V.choose('how', [True, False])); m.set_interpol(True)
    h = hpy(M); th = np.array([.3, 1.2, 2.0, 2.9]); ph = np.array([.1, 2., 4.4, 6.])
    px, w = h.get_interp_weights(nside, th, ph, nest=scheme == 'NEST')
    c = (np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)) if xyz else (th, ph)
    r = m[tuple(np.array(F(x)) for x in c)]
    ck.close(list(r), [sum(old[int(px[j, k])] * float(w[j, k]) for j in range(4)) for k in range(4)], 'interpolated values')
    k0 = V.real('k', -100, 100); m.map[...] = k0
    ck.close(list(m[th, ph]), [k0] * 4, 'a constant map reads as the constant')
    q = m[np.array([3, 3, 0])]
    ck.eq(list(q), [k0] * 3, 'pixel numbers are never interpolated')
    m, old = start_again(M, V, nside, scheme)
    ck.eq(list(m[tuple(dirs(M, nside, scheme, [1, 7], 'ang'))]), [old[1], old[7]], 'and without interpolation the nearest pixel is read')
def start_again(M, V, nside, scheme):
    m = M.healpix.HealpixMap(nside=nside, scheme=scheme); o = V.array('n', (12*nside**2,), -100, 100); m.set_map(o.copy(), scheme=scheme)
    m.set_interpol(True); m.set_interpol(False); return m, list(o)
def sizes(M, V, ck):
    """The number of pixels decides the resolution; others are refused and leave the map as it was."""
    n = V.choose('n', list(range(61)) + [108, 192, 300, 432, 768, 3072])
    m, old = start(M, V, 1, 'NEST')
    sch = V.choose('scheme', ['RING', 'NEST'])
    if n in (12, 48, 192, 768, 3072):
        d = V.arr([V.real('d0', -9, 9)] * n); m.set_map(d, scheme=sch)
        ck.eq(12 * m.nside()**2, n, 'resolution follows from the number of pixels'); ck.true(m.scheme() == sch, 'ordering as given'); ck.eq(m.npix(), n, 'npix'); ck.eq(list(m.get_map()), list(d), 'contents')
    else:
        ck.raises((ValueError, AssertionError), lambda: m.set_map(np.zeros(n), scheme=sch), 'a size that is no resolution is refused')
        ck.eq(list(m.get_map()), old, 'and the map is unchanged'); ck.eq(m.nside(), 1, 'resolution unchanged'); ck.true(m.scheme() == 'NEST', 'ordering unchanged')
def fresh(M, V, ck):
    nside = V.choose('nside', [1, 2, 4, 8]); scheme = V.choose('scheme', ['RING', 'NEST'])
    m = M.healpix.HealpixMap(nside=nside, scheme=scheme)
    ck.eq(m.nside(), nside, 'nside'); ck.true(m.scheme() == scheme, 'scheme'); ck.eq(list(m.get_map()), [0] * (12 * nside**2), 'a new map is zero')
    m2 = M.healpix.HealpixMap(nside=nside, scheme=scheme); x = V.real('x')
    m[np.array([0, 1])] = V.arr([x, x]); m[2] = x; ck.eq(list(m2.get_map()), [0] * (12 * nside**2), 'maps do not share data')
    ck.raises((ValueError, AssertionError), lambda: m.set_map(np.zeros((12, 1))), 'two-dimensional data are refused')
SCENARIOS = [Scenario(g.__name__, g, stubs=HS, max_paths=600) for g in (access, single, increments, interp, sizes, fresh)]
