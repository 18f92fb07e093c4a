from vlib.harness import Scenario
from checks.common import *
from vlib import hstub
import numpy as np
STUBS = dict(STUBS, healpy=hstub.module)
BOUNDS = 'any direction and pointing (two directions at once), 2 frequencies, polynomial beams of up to 2x2 and 3x1 terms, spherical-harmonic beams of lmax 1 and degree 1 on a 12-pixel map at four concrete directions with any coefficients'
OUTSIDE = 'the values of exp and arcsin; healpy interpolation itself (checked at concrete directions only)'
EXPLANATION = 'Beam responses and antenna pointing executed on symbolic unit vectors, widths, polynomial coefficients and pointing angles.'

def dirs(M, V, n=2, minz=None):
    us = [V.unit('u%d' % k) for k in range(n)]
    if minz is not None:
        for u in us: V.assume(u[2] > minz)
    return us, V.arr([[u[c] for u in us] for c in range(3)])

def flat(M, V, ck):
    f = freqs(V, 2); us, x = dirs(M, V)
    r = V.choose('m', [M.amp, M.fit]).Beam(f).response(x)
    ck.shape(r, (2, 2), 'one response per frequency and direction'); ck.eq(r, V.arr([[1., 1.], [1., 1.]]), 'unity')

def gauss(M, V, ck):
    f = freqs(V, 2); us, x = dirs(M, V); xw, yw = V.real('xw', .1, 2), V.real('yw', .1, 2)
    b = V.choose('m', [M.amp, M.fit]).Beam2DGaussian(f, xw, yw)
    r = b.response((x[0], x[1], x[2]))
    ck.shape(r, (2, 2), 'one response per frequency and direction')
    np_ = M.np
    for k, u in enumerate(us):
        g = np_.exp(-0.5 * ((np_.arcsin(u[0]) / xw)**2 + (np_.arcsin(u[1]) / yw)**2))
        for c in range(2): ck.eq(r[c][k]**2, g, 'Gaussian in the angles from the axes'); ck.ge(r[c][k], 0, 'not negative')
    z = b.response(V.arr([[0.], [0.], [1.]])); ck.eq(z, V.arr([[1.], [1.]]), 'unity at the centre')

def gauss_sym(M, V, ck):
    """The Gaussian is even in each angle and widths belong to their axes."""
    f = freqs(V, 1); u = V.unit('u'); xw, yw = V.real('xw', .1, 2), V.real('yw', .1, 2)
    b = M.amp.Beam2DGaussian(f, xw, yw); t = M.amp.Beam2DGaussian(f, yw, xw)
    r = b.response(V.arr([[u[0]], [u[1]], [u[2]]]))
    for sx, sy in ((-1, 1), (1, -1), (-1, -1)): ck.eq(b.response(V.arr([[sx * u[0]], [sy * u[1]], [u[2]]])), r, 'even in each coordinate')
    ck.eq(t.response(V.arr([[u[1]], [u[0]], [u[2]]])), r, 'exchanging axes and widths')

def poly(M, V, ck):
    f = freqs(V, 2); na, nf = V.choose('shape', [(1, 1), (2, 2), (3, 1)])
    P = V.array('P', (na, nf), .1, 1); n = V.choose('ndir', [1, 2])
    us, x = dirs(M, V, n, 0.05)
    b = V.choose('m', [M.amp, M.fit]).BeamPolynomial(f, P.copy())
    r = b.response(x)
    ck.shape(r, (2, n), 'one response per frequency and direction')
    np_ = M.np
    az, alt = M.coord.top2azalt(x)
    for k in range(n):
        zang = np_.pi / 2 - alt[k]
        for c in range(2):
            s = 0
            for q in range(na):
                s = s + (0.5 if q == 0 else np_.cos(2 * q * az[k])) * sum(P[q][p] * f[c]**p for p in range(nf))
            V.assume(s > 0.01)
            ck.eq(r[c][k]**2, np_.exp(-(zang / s)**2), 'Gaussian whose width varies with azimuth and frequency'); ck.ge(r[c][k], 0, 'not negative')

def alm(M, V, ck):
    f = freqs(V, 2)
    C = {k: V.carray('c%d_' % k, (3,), -1, 1) for k in (0, 1)}
    b = V.choose('m', [M.amp, M.fit]).BeamAlm(f, lmax=1, mmax=1, deg=1, nside=1, coeffs={k: C[k].copy() for k in C})
    th = np.array([.3, 1.2, 2.0, .01]); ph = np.array([.1, 2.5, 4.5, 0.7])
    x = np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)
    r = b.response(x)
    ck.shape(r, (2, 4), 'one response per frequency and direction')
    import healpy
    px, wg = healpy.get_interp_weights(1, th, ph)
    # real-valued map of the three coefficients: a00 Y00 + a10 Y10 + 2 Re(a11 Y11)
    vx, vy, vz = healpy.pix2vec(1, np.arange(12))
    def sky(c, p): return c[0].real * np.sqrt(1/(4*np.pi)) + c[1].real * np.sqrt(3/(4*np.pi)) * vz[p] - 2 * np.sqrt(3/(8*np.pi)) * (c[2].real * vx[p] - c[2].imag * vy[p])
    for k in range(4):
        co = [sum(sky(C[t], px[q][k]) * wg[q][k] for q in range(4)) for t in (0, 1)]
        for c in range(2): ck.close(r[c][k], co[0] + co[1] * f[c], 'frequency polynomial of the interpolated sky maps', 1e-6)

def probe(M):
    class Probe(M.phs.Beam):
        """Returns the coordinates at which it is evaluated."""
        def response(self, xyz): self.seen = xyz; return M.np.array(xyz)
    return Probe
def mkant(M, V, f, **kw):
    return V.choose('m', [M.amp, M.fit]).Antenna(0., 0., 0., probe(M)(f), **kw)
def R(M, a, axis):
    c, s = M.np.cos(a), M.np.sin(a)
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]] if axis == 'z' else [[c, 0, s], [0, 1, 0], [-s, 0, c]]
def mm(a, b): return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]

def pointing(M, V, ck):
    f = freqs(V, 1); az, alt, tw = V.angle('az', -7, 7), V.angle('alt', -1.6, 1.6), V.angle('tw', -4, 4)
    how = V.choose('how', ['init', 'set'])
    if how == 'init': a = mkant(M, V, f, pointing=(az, alt, tw))
    else: a = mkant(M, V, f); a.set_pointing(az=az, alt=alt, twist=tw)
    top = M.coord.azalt2top((az, alt))
    for p in 'xy': ck.eq(list(a.bm_response(V.arr(list(top)), pol=p)), [0, 0, 1], 'the pointing direction is the beam centre', tol=1e-6)
    us, x = dirs(M, V, 1)
    u = us[0]
    bx, by = a.bm_response(x, pol='x'), a.bm_response(x, pol='y')
    PI = M.np.pi
    W = mm(R(M, -tw, 'z'), mm(R(M, alt - PI/2, 'y'), R(M, az - PI/2, 'z')))
    want = mv(W, u)
    ck.eq([bx[c][0] for c in range(3)], want, 'directions are rotated by pointing and twist', tol=1e-6)
    ck.eq([by[c][0] for c in range(3)], [want[1], -want[0], want[2]], 'the second polarization is rotated by a quarter turn', tol=1e-6)

def geometry(M, V, ck):
    """Angles to the pointing direction and handedness are kept, whatever the convention."""
    f = freqs(V, 1); az, alt, tw = V.angle('az', -7, 7), V.angle('alt', -1.6, 1.6), V.angle('tw', -4, 4)
    a = mkant(M, V, f, pointing=(az, alt, tw))
    us, x = dirs(M, V, 1); u = us[0]; top = M.coord.azalt2top((az, alt))
    for p in 'xy':
        b = a.bm_response(x, pol=p)
        ck.eq(b[2][0], sum(u[c] * top[c] for c in range(3)), 'height in beam coordinates is the cosine of the angle to the pointing direction', tol=1e-6)
    a0 = mkant(M, V, f, pointing=(az, alt, 0)); b0, b = a0.bm_response(x), a.bm_response(x)
    c, s = M.np.cos(tw), M.np.sin(tw)
    ck.eq([b[0][0], b[1][0]], [c * b0[0][0] + s * b0[1][0], -s * b0[0][0] + c * b0[1][0]], 'twist turns the beam about its centre', tol=1e-6)

def applied(M, V, ck):
    """A real beam is evaluated in the rotated coordinates of its polarization."""
    f = freqs(V, 2); xw, yw = V.real('xw', .2, 2), V.real('yw', .2, 2); tw = V.angle('tw', -4, 4)
    B = M.amp.Beam2DGaussian(f, xw, yw); a = M.amp.Antenna(0., 0., 0., B, pointing=(M.np.pi/2, M.np.pi/2, tw))
    us, x = dirs(M, V, 1); u = us[0]; c, s = M.np.cos(tw), M.np.sin(tw)
    r = [c * u[0] + s * u[1], -s * u[0] + c * u[1], u[2]]
    ck.eq(a.bm_response(x, pol='x')**2, B.response(V.arr([[v] for v in r]))**2, 'x response is the beam in turned coordinates')
    ck.eq(a.bm_response(x, pol='y')**2, B.response(V.arr([[r[1]], [-r[0]], [r[2]]]))**2, 'y response is the beam a quarter turn further')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (flat, gauss, gauss_sym, poly, alm, pointing, geometry, applied)]
