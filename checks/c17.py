from vlib.harness import Scenario
import numpy as np
BOUNDS = 'all unit vectors and all angles; masked arrays of three entries with every mask pattern'
OUTSIDE = 'floating-point rounding; arrays longer than three entries'
EXPLANATION = 'The conversions of coord executed on symbolic unit vectors and symbolic angles; arctan2 is encoded by its defining equations.'

def polar(M, V, ck):
    c = M.coord; u = V.unit('u'); np_ = M.np; pi = np_.pi
    t = c.xyz2thphi(u)
    ck.shape(t, (2,), 'polar angles of one vector')
    ck.ge(t[0], 0, 'the polar angle is at least 0'); ck.le(t[0], pi, 'the polar angle is at most pi')
    ck.ge(t[1], -pi, 'the azimuthal angle is at least -pi'); ck.le(t[1], pi, 'the azimuthal angle is at most pi')
    ck.eq(c.thphi2xyz(t), u, 'vector to polar angles and back', tol=1e-5)

def polar_fwd(M, V, ck):
    c = M.coord; np_ = M.np
    th, ph = V.angle('th'), V.angle('ph')
    v = c.thphi2xyz((th, ph))
    ck.shape(v, (3,), 'vector of one pair of angles')
    ck.eq(v, [np_.sin(th)*np_.cos(ph), np_.sin(th)*np_.sin(ph), np_.cos(th)], 'vector of polar angles')
    ck.eq(v[0]*v[0] + v[1]*v[1] + v[2]*v[2], 1, 'polar angles give a unit vector')

def polar_back(M, V, ck):
    c = M.coord; np_ = M.np; pi = np_.pi
    th, ph = V.angle('th', lo=0.001, hi=3.14), V.angle('ph', lo=-3.14, hi=3.14)
    V.assume(np_.sin(th) > 0.0005)
    t = c.xyz2thphi(c.thphi2xyz((th, ph)))
    ck.same_angle(t[0], th, -1, 'polar angle to vector and back')
    ck.same_angle(t[1], ph, -pi, 'azimuthal angle to vector and back', upper=True)

def radec(M, V, ck):
    c = M.coord; u = V.unit('u'); np_ = M.np; pi = np_.pi
    t = c.eq2radec(u)
    ck.ge(t[0], 0, 'right ascension is at least 0'); ck.le(t[0], 2*pi, 'right ascension is at most 2 pi')
    ck.ge(t[1], -pi/2, 'declination is at least -pi/2'); ck.le(t[1], pi/2, 'declination is at most pi/2')
    ck.eq(c.radec2eq(t), u, 'vector to right ascension and declination and back', tol=1e-5)
    ra, dec = V.angle('ra'), V.angle('dec')
    v = c.radec2eq((ra, dec))
    ck.eq(v, [np_.cos(dec)*np_.cos(ra), np_.cos(dec)*np_.sin(ra), np_.sin(dec)], 'vector of right ascension and declination')

def radec_back(M, V, ck):
    c = M.coord; np_ = M.np; pi = np_.pi
    ra, dec = V.angle('ra', lo=0, hi=6.28), V.angle('dec', lo=-1.57, hi=1.57)
    V.assume(np_.cos(dec) > 0.0005)
    t = c.eq2radec(c.radec2eq((ra, dec)))
    ck.same_dir(t[0], ra, 'right ascension to vector and back')
    ck.same_angle(t[1], dec, -2, 'declination to vector and back')

def azalt(M, V, ck):
    c = M.coord; u = V.unit('u'); np_ = M.np; pi = np_.pi
    t = c.top2azalt(u)
    ck.ge(t[0], 0, 'azimuth is at least 0'); ck.le(t[0], 2*pi, 'azimuth is at most 2 pi')
    ck.ge(t[1], -pi/2, 'altitude is at least -pi/2'); ck.le(t[1], pi/2, 'altitude is at most pi/2')
    ck.eq(c.azalt2top(t), u, 'vector to azimuth and altitude and back', tol=1e-5)
    az, alt = V.angle('az'), V.angle('alt')
    v = c.azalt2top((az, alt))
    ck.eq(v, [np_.cos(alt)*np_.sin(az), np_.cos(alt)*np_.cos(az), np_.sin(alt)], 'azimuth increases from north through east')

def azalt_back(M, V, ck):
    c = M.coord; np_ = M.np; pi = np_.pi
    az, alt = V.angle('az', lo=0, hi=6.28), V.angle('alt', lo=-1.57, hi=1.57)
    V.assume(np_.cos(alt) > 0.0005)
    t = c.top2azalt(c.azalt2top((az, alt)))
    ck.same_dir(t[0], az, 'azimuth to vector and back')
    ck.same_angle(t[1], alt, -2, 'altitude to vector and back')

def latlong(M, V, ck):
    c = M.coord; np_ = M.np
    lat, lon = V.angle('lat'), V.angle('lon')
    v = c.latlong2xyz((lat, lon))
    ck.eq(v, [np_.cos(lat)*np_.cos(lon), np_.cos(lat)*np_.sin(lon), np_.sin(lat)], 'vector of latitude and longitude')

def arrays(M, V, ck):
    """Arrays convert element by element."""
    c = M.coord
    a, b = V.angles('a', (2,)), V.angles('b', (2,))
    for f in ('thphi2xyz', 'radec2eq', 'azalt2top', 'latlong2xyz'):
        g = getattr(c, f); r = g((a, b))
        ck.shape(r, (3, 2), f + ' of arrays')
        for k in range(2): ck.eq(r[:, k], g((a[k], b[k])), f + ' converts arrays element by element')
    u = [V.unit('u'), V.unit('v')]
    x = V.arr([[u[0][i], u[1][i]] for i in range(3)])
    for f in ('xyz2thphi', 'eq2radec', 'top2azalt'):
        g = getattr(c, f); r = g(x)
        ck.shape(r, (2, 2), f + ' of arrays')
        for k in range(2): ck.eq(r[:, k], g(u[k]), f + ' converts arrays element by element')

def masked(M, V, ck):
    """Masked entries stay masked, others convert as usual."""
    c = M.coord; n = 3
    us = [V.unit('u%d' % k) for k in range(n)]
    x = V.arr([[us[k][i] for k in range(n)] for i in range(3)])
    m = V.choose('mask', ['none'] + list(range(2**n)))
    data = np.asarray(x)
    if m == 'none': X = M.np.ma.array(data); mk = [False] * n
    else:
        mk = [bool(m >> k & 1) for k in range(n)]
        X = M.np.ma.array(data, mask=np.array([mk] * 3))
    f = V.choose('fn', ['xyz2thphi', 'eq2radec', 'top2azalt'])
    g = getattr(c, f); r = g(X)
    ck.true(np.ma.isMA(r), f + ' of a masked array is a masked array')
    rm = np.ma.getmaskarray(r)
    ck.true(rm.shape == (2, n) and bool(np.all(rm == np.array([mk, mk]))), f + ' keeps the mask')
    for k in range(n):
        if not mk[k] and rm.shape == (2, n) and not rm[:, k].any():
            ck.eq([r.data[0][k], r.data[1][k]], g(us[k]), f + ' of the entries that are not masked')

def masked_fwd(M, V, ck):
    c = M.coord; n = 3
    a, b = V.angles('a', (n,)), V.angles('b', (n,))
    m = V.choose('mask', ['none'] + list(range(2**n)))
    mk = [False] * n if m == 'none' else [bool(m >> k & 1) for k in range(n)]
    A, B = np.asarray(a), np.asarray(b)
    if m == 'none': X = (M.np.ma.array(A), M.np.ma.array(B))
    else: X = (M.np.ma.array(A, mask=mk), M.np.ma.array(B, mask=mk))
    f = V.choose('fn', ['thphi2xyz', 'radec2eq', 'azalt2top'])
    g = getattr(c, f); r = g(X)
    ck.true(np.ma.isMA(r), f + ' of a masked array is a masked array')
    rm = np.ma.getmaskarray(r)
    ck.true(rm.shape == (3, n) and bool(np.all(rm == np.array([mk] * 3))), f + ' keeps the mask')
    for k in range(n):
        if not mk[k] and rm.shape == (3, n) and not rm[:, k].any():
            ck.eq([r.data[i][k] for i in range(3)], g((a[k], b[k])), f + ' of the entries that are not masked')

def scaled(M, V, ck):
    """Only the direction matters."""
    c = M.coord; u = V.unit('u'); k = V.real('k', 0.25, 8)
    a, b = c.xyz2thphi(u), c.xyz2thphi(V.arr([u[i] * k for i in range(3)]))
    ck.same_dir(a[0], b[0], 'the polar angle does not depend on the length')
    V.assume(u[0]*u[0] + u[1]*u[1] > 0.01)
    ck.same_dir(a[1], b[1], 'the azimuthal angle does not depend on the length')

SCENARIOS = [Scenario(f.__name__, f, **kw) for f, kw in ((polar, {}), (polar_fwd, {}), (polar_back, {}), (radec, {}), (radec_back, {}), (azalt, {}),
    (azalt_back, {}), (latlong, {}), (arrays, {}), (masked, {}), (masked_fwd, {}), (scaled, {}))]
