from vlib.harness import Scenario
from checks.common import *
BOUNDS = '2 or 3 antennas at any positions, 2 channels of any frequency, any latitude, time and source direction'
OUTSIDE = 'ephem\'s own computation of sidereal time and source positions; floating-point rounding'
EXPLANATION = 'AntennaArray.get_baseline and gen_uvw executed on symbolic positions, frequencies, latitude, sidereal time and source angles.'

def d(P, i, j): return [P[j][k] - P[i][k] for k in range(3)]
def n2(v): return v[0]*v[0] + v[1]*v[1] + v[2]*v[2]

def algebra(M, V, ck):
    aa, f, P, o = phs_array(M, V, nant=3)
    for src in ('r', 'e', 'z'):
        b01, b12, b02, b10 = [aa.get_baseline(i, j, src) for i, j in ((0, 1), (1, 2), (0, 2), (1, 0))]
        ck.shape(b01, (3,), 'a baseline is a vector')
        ck.eq(b01, [-x for x in b10], "baseline '%s' from i to j is the opposite of that from j to i" % src)
        ck.eq([b01[k] + b12[k] for k in range(3)], b02, "baselines '%s' around a triangle add to zero" % src)
        ck.eq(n2(b01), n2(d(P, 0, 1)), "projection '%s' preserves the length" % src)
    ck.eq(aa.get_baseline(0, 1, 'r'), d(P, 0, 1), 'the unrotated baseline is the difference of the positions')

def directions(M, V, ck):
    aa, f, P, o = phs_array(M, V)
    np_ = M.np; b = d(P, 0, 1)
    l = aa.sidereal_time(); c, s = np_.cos(l), np_.sin(l)
    # current equatorial: the meridian is at hour angle zero, so positions turn back by the sidereal time
    ck.eq(aa.get_baseline(0, 1, 'e'), [c*b[0] + s*b[1], -s*b[0] + c*b[1], b[2]], 'current equatorial baseline turns by the sidereal time')
    la = aa.lat
    ck.eq(aa.get_baseline(0, 1, 'z'), [b[1], -np_.sin(la)*b[0] + np_.cos(la)*b[2], np_.cos(la)*b[0] + np_.sin(la)*b[2]], 'zenith projection gives east, north, up at the latitude')
    ck.eq(aa.get_baseline(0, 1), aa.get_baseline(0, 1, 'z'), 'the default projection is towards the zenith')
    ck.raises(ValueError, lambda: aa.get_baseline(0, 1, 'q'), 'an unknown projection is refused')

def dirvec(M, aa, ra, dec):
    np_ = M.np; h = aa.sidereal_time() - ra
    return [np_.cos(dec)*np_.cos(h), -np_.cos(dec)*np_.sin(h), np_.sin(dec)]

def source_proj(M, V, ck):
    aa, f, P, o = phs_array(M, V, nant=3)
    s = source(M, V); s.compute(aa)
    V.assume(s.alt > 0.001)
    b01, b12, b02, b10 = [aa.get_baseline(i, j, s) for i, j in ((0, 1), (1, 2), (0, 2), (1, 0))]
    b = d(P, 0, 1); sv = dirvec(M, aa, s.ra, s.dec)
    ck.eq(b01, [-x for x in b10], 'baseline towards a source is antisymmetric')
    ck.eq([b01[k] + b12[k] for k in range(3)], b02, 'baselines towards a source add around a triangle')
    ck.eq(n2(b01), n2(b), 'projection towards a source preserves the length')
    ck.eq(b01[2], sum(b[k]*sv[k] for k in range(3)), 'w is the projection along the source direction')
    ck.eq(b01[0], M.np.sin(aa.sidereal_time() - s.ra)*b[0] + M.np.cos(aa.sidereal_time() - s.ra)*b[1], 'u is the eastward component seen from the source')

def below(M, V, ck):
    aa, f, P, o = phs_array(M, V)
    s = source(M, V); s.compute(aa)
    V.assume(s.alt < -0.0001)
    ck.raises(M.phs.PointingError, lambda: aa.get_baseline(0, 1, s), 'a source below the horizon is refused for a baseline')
    ck.raises(M.phs.PointingError, lambda: aa.gen_uvw(0, 1, s), 'a source below the horizon is refused for coordinates')
    ck.raises(M.phs.PointingError, lambda: aa.gen_phs(s, 0, 1), 'a source below the horizon is refused for phases')

def vector_src(M, V, ck):
    """A direction given as an equatorial vector, one or several."""
    aa, f, P, o = phs_array(M, V)
    np_ = M.np; b = d(P, 0, 1)
    ra, dec = V.angles('ra', (2,), 0.1, 6), V.angles('dec', (2,), -1.4, 1.4)
    V.assume((np_.cos(dec[0]) > 0.1) & (np_.cos(dec[1]) > 0.1))
    x = M.coord.radec2eq((ra, dec))
    B = aa.get_baseline(0, 1, x)
    uvw = aa.gen_uvw(0, 1, x); w = aa.gen_uvw(0, 1, x, w_only=True)
    ck.shape(uvw, (3, 2, 2), 'coordinates of two directions and two channels')
    ck.shape(w, (2, 2), 'w of two directions and two channels')
    for k in range(2):
        sv = dirvec(M, aa, ra[k], dec[k])
        wk = sum(b[q]*sv[q] for q in range(3))
        ck.eq(B[2][k], wk, 'w of a direction given as a vector')
        for c in range(2):
            ck.eq(uvw[2][k][c], wk * f[c], 'w in wavelengths of a direction given as a vector')
            ck.eq(w[k][c], wk * f[c], 'w-only request returns the same w for vectors')
            ck.eq(uvw[0][k][c]**2 + uvw[1][k][c]**2 + uvw[2][k][c]**2, n2(b) * f[c]**2, 'length in wavelengths')

def uvw(M, V, ck):
    aa, f, P, o = phs_array(M, V)
    s = source(M, V); s.compute(aa); V.assume(s.alt > 0.001)
    for src in ('z', 'e', s):
        b = aa.get_baseline(0, 1, src)
        r = aa.gen_uvw(0, 1, src); w = aa.gen_uvw(0, 1, src, w_only=True)
        ck.shape(r, (3, 1, 2), 'coordinates of one direction'); ck.shape(w, (1, 2), 'w of one direction')
        for k in range(3):
            for c in range(2): ck.eq(r[k][0][c], b[k] * f[c], 'coordinates are the baseline times each frequency')
        ck.eq(w, r[2], 'a w-only request returns the same w')

def special(M, V, ck):
    """Moving bodies project like fixed ones."""
    aa, f, P, o = phs_array(M, V)
    s = M.phs.RadioSpecial('Sun'); s.compute(aa)
    b = d(P, 0, 1)
    V.assume(s.alt > 0.001)
    r = aa.get_baseline(0, 1, s); sv = dirvec(M, aa, s.ra, s.dec)
    ck.eq(r[2], sum(b[k]*sv[k] for k in range(3)), 'w towards a moving body')
    ck.eq(n2(r), n2(b), 'projection towards a moving body preserves the length')

def antenna_ops(M, V, ck):
    P = pos(V, 2); B = M.phs.Beam(freqs(V, 2))
    a, b = [M.phs.Antenna(p[0], p[1], p[2], B) for p in P]
    ck.eq(a - b, d(P, 1, 0), 'antenna difference'); ck.eq(a + b, [P[0][k] + P[1][k] for k in range(3)], 'antenna sum')
    ck.eq(-a, [-x for x in P[0]], 'antenna negation'); ck.eq(list(a), P[0], 'antenna coordinates')
    aa = M.phs.AntennaArray((0.5, 0.5), [a, b])
    ck.true(len(aa) == 2 and aa[0] is a and aa[1] is b, 'antennas keep their order')

def place(M, V, ck):
    """The array stands where its location says, with or without an elevation."""
    m = getattr(M, V.choose('mod', ['phs', 'amp'])); np_ = M.np; P = pos(V, 2); B = m.Beam(V.arr([0.1, 0.2]))
    la, lo, el = V.angle('lat', -1.5, 1.5), V.angle('long', -3, 3), V.real('elev', 0, 4000)
    loc = V.choose('loc', [(la, lo), (la, lo, el)])
    aa = m.AntennaArray(loc, [m.Antenna(p[0], p[1], p[2], B) for p in P])
    ck.eq([aa.lat - 0, aa.long - 0], [la, lo], 'the array has the latitude and longitude it was given')
    if len(loc) == 3: ck.eq(aa.elev - 0, el, 'the array has the elevation it was given')
    b = d(P, 0, 1)
    ck.eq(aa.get_baseline(0, 1, 'z'), [b[1], -np_.sin(la)*b[0] + np_.cos(la)*b[2], np_.cos(la)*b[0] + np_.sin(la)*b[2]], 'the zenith projection is for the given latitude')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (algebra, directions, source_proj, below, vector_src, uvw, special, antenna_ops, place)]
