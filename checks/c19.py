from vlib.harness import Scenario
from checks.common import *
BOUNDS = '2 antennas anywhere, 2 channels, phase polynomials of degree 1 and 2, any ionospheric offset and source shape; one or two source directions'
OUTSIDE = 'the Bessel function itself (only |J1(x)| <= |x|/2 is used); floating-point rounding'
EXPLANATION = 'gen_phs, refract, resolve_src, phs2src and unphs2src executed on symbolic arrays; exp of an imaginary argument is a point on the unit circle.'

def setup(M, V, **kw):
    aa, f, P, o = phs_array(M, V, **kw)
    s = source(M, V); s.compute(aa); V.assume(s.alt > 0.001)
    return aa, f, P, o, s

def phase(M, V, ck):
    aa, f, P, o, s = setup(M, V, phsoff=3)
    for src in (s, 'z', 'e'):
        p = aa.gen_phs(src, 0, 1)
        ck.shape(p, (2,), 'one phase per channel')
        q = aa.gen_phs(src, 1, 0)
        w = aa.get_baseline(0, 1, src)[2]
        for c in range(2):
            off = polyval(o[1], f[c]) - polyval(o[0], f[c])
            ck.eq(p[c], cis(M, -2*M.np.pi*(w*f[c] + off)), 'phase of w and of the phase polynomials at each frequency', tol=1e-4)
            ck.eq(q[c], p[c].conjugate(), 'swapping the antennas conjugates the phase', tol=1e-4)
            ck.eq(p[c].real**2 + p[c].imag**2, 1, 'unit magnitude')

def offset(M, V, ck):
    aa, f, P, o = phs_array(M, V, phsoff=3)
    r = aa.get_phs_offset(0, 1)
    ck.eq(r, [polyval(o[1], f[c]) - polyval(o[0], f[c]) for c in range(2)], 'phase offset is the difference of the polynomials')

def undo(M, V, ck):
    aa, f, P, o, s = setup(M, V)
    data = V.carray('d', (2,), -10, 10)
    ion = V.choose('ion', [None, 'given', 'own'])
    kw = {}
    if ion == 'given': kw = dict(ionref=(V.real('dra', -.01, .01), V.real('ddec', -.01, .01)), mfreq=V.real('mf', .1, .2))
    if ion == 'own': s.ionref = [V.real('dra', -.01, .01), V.real('ddec', -.01, .01)]
    src = V.choose('src', [s, 'z'])
    q = aa.phs2src(data, src, 0, 1, **kw)
    back = aa.unphs2src(q, src, 0, 1, **kw)
    ck.eq(back, data, 'unphasing undoes phasing', tol=1e-5)
    p = aa.gen_phs(src, 0, 1, **kw)
    ck.eq(q, [data[c] * p[c] for c in range(2)], 'phasing multiplies by the phase factor', tol=1e-5)

def iono(M, V, ck):
    aa, f, P, o, s = setup(M, V)
    dra, ddec, mf = V.real('dra', -.01, .01), V.real('ddec', -.01, .01), V.real('mf', .1, .2)
    own = V.choose('own', [False, True])
    if own: s.ionref = [dra, ddec]; p = aa.gen_phs(s, 0, 1, mfreq=mf)
    else: p = aa.gen_phs(s, 0, 1, mfreq=mf, ionref=(dra, ddec))
    u, v, w = aa.get_baseline(0, 1, s)
    for c in range(2):
        off = polyval(o[1], f[c]) - polyval(o[0], f[c])
        dw = (dra * u * f[c] + ddec * v * f[c]) * mf**2 / f[c]**2
        ck.eq(p[c], cis(M, -2*M.np.pi*(w*f[c] + dw + off)), 'ionospheric offset scales as frequency to the minus two', tol=1e-4)
        ck.eq(p[c].real**2 + p[c].imag**2, 1, 'unit magnitude with an ionospheric offset')

def refract(M, V, ck):
    aa, f, P, o = phs_array(M, V)
    u, v = V.array('u', (2, 2), -100, 100), V.array('v', (2, 2), -100, 100)
    dra, ddec, mf = V.array('dra', (2,), -.01, .01), V.array('ddec', (2,), -.01, .01), V.array('mf', (2,), .1, .2)
    r = aa.refract(u, v, mfreq=mf.copy(), ionref=(dra.copy(), ddec.copy()))
    ck.shape(r, (2, 2), 'offsets of two sources at two channels')
    for k in range(2):
        for c in range(2): ck.eq(r[k][c], (dra[k]*u[k][c] + ddec[k]*v[k][c]) * mf[k]**2 / f[c]**2, 'offset of each source and channel')

def vec(M, V, ck):
    """Several directions at once, each with its own offset."""
    aa, f, P, o = phs_array(M, V)
    us = [V.unit('u'), V.unit('v')]
    x = V.arr([[us[0][i], us[1][i]] for i in range(3)])
    p = aa.gen_phs(x, 0, 1)
    w = aa.get_baseline(0, 1, x)[2]
    ck.shape(p, (2, 2), 'phases of two directions at two channels')
    for k in range(2):
        for c in range(2):
            off = polyval(o[1], f[c]) - polyval(o[0], f[c])
            ck.eq(p[k][c], cis(M, -2*M.np.pi*(w[k]*f[c] + off)), 'phase of each direction and channel', tol=1e-4)

def resolve(M, V, ck):
    aa, f, P, o = phs_array(M, V)
    u, v = V.array('u', (1, 2), -100, 100), V.array('v', (1, 2), -100, 100)
    a1, a2, th = V.real('a1', 0, .1), V.real('a2', 0, .1), V.angle('th', -4, 4)
    r = aa.resolve_src(u, v, srcshape=(a1, a2, th))
    ck.shape(r, (2,), 'one attenuation per channel')
    for c in range(2):
        ck.le(r[c], 1, 'attenuation never exceeds one'); ck.ge(r[c], -1, 'attenuation is at least minus one')
    z = aa.resolve_src(u, v, srcshape=(0., 0., th))
    for c in range(2): ck.eq(z[c], 1, 'a point source is not attenuated')
    z = aa.resolve_src(u * 0, v * 0, srcshape=(a1, a2, th))
    for c in range(2): ck.eq(z[c], 1, 'a zero baseline is not attenuated')
    # a circular source: the attenuation depends only on the distance
    q = aa.resolve_src(u, v, srcshape=(a1, a1, th)); q0 = aa.resolve_src(u, v, srcshape=(a1, a1, 0.))
    q1 = aa.resolve_src(-v, u, srcshape=(a1, a1, 0.))
    for c in range(2):
        ck.eq(q[c], q0[c], 'a circular source has no orientation', tol=1e-4)
        ck.eq(q1[c], q0[c], 'a circular source attenuates all directions alike', tol=1e-4)

def resolve_axis(M, V, ck):
    """An elongated source attenuates along its own axis."""
    aa, f, P, o = phs_array(M, V)
    r, a1, th = V.real('r', 1, 100), V.real('a1', 0.001, .1), V.angle('th', -4, 4)
    np_ = M.np
    # perpendicular to the long axis nothing is resolved
    u = V.arr([[r * np_.sin(th), r * np_.sin(th)]]); v = V.arr([[r * np_.cos(th), r * np_.cos(th)]])
    q = aa.resolve_src(u, v, srcshape=(a1, 0., th))
    for c in range(2): ck.eq(q[c], 1, 'a line source does not attenuate across its axis', tol=1e-4)

def resolve_phs(M, V, ck):
    aa, f, P, o, s = setup(M, V)
    shp = (V.real('a1', 0.001, .01), V.real('a2', 0.001, .01), V.angle('th', -3, 3))
    own = V.choose('own', [False, True])
    if own: s.srcshape = list(shp)
    p = aa.gen_phs(s, 0, 1, resolve_src=True, **({} if own else dict(srcshape=shp)))
    q = aa.gen_phs(s, 0, 1, resolve_src=False)
    uvw = aa.gen_uvw(0, 1, s)
    a = aa.resolve_src(uvw[0], uvw[1], srcshape=shp)
    for c in range(2):
        ck.eq(p[c], q[c] * a[c], 'attenuation multiplies the phase when asked for', tol=1e-4)
    e = aa.phs2src(V.arr([1, 1]) * 1.0, s, 0, 1)
    ck.eq(e, q, 'phasing data does not attenuate', tol=1e-4)

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (phase, offset, undo, iono, refract, vec, resolve, resolve_axis, resolve_phs)]
