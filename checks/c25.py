from vlib.harness import Scenario
from checks.common import *
BOUNDS = '2 antennas, 1 or 2 channels, 0 to 2 sources (3 in the order scenario) in any direction, any fluxes, gains, ionospheric offsets and sizes, all four polarizations'
OUTSIDE = 'more sources (each is handled alike along an array axis); values of the Bessel and exponential functions'
EXPLANATION = 'sim_cache and sim executed on symbolic source directions; the horizon test forks, every combination of sources above and below is compared with the sum over those above.'

def mk(M, V, f, beam='gauss', mod='amp', offs=True):
    m = getattr(M, mod)
    P = pos(V, 2)
    g = [(V.array('br%d_' % k, (2,), -5, 5), V.array('bi%d_' % k, (1,), -5, 5), V.real('amp%d' % k, -5, 5)) for k in range(2)]
    o = [[V.real('o%d_%d' % (k, c), -9, 9) for c in range(2)] if offs else [0., 0.] for k in range(2)]
    B = (lambda k: m.Beam2DGaussian(f, V.real('wx%d' % k, .2, 2), V.real('wy%d' % k, .2, 2))) if beam == 'gauss' else (lambda k: m.Beam(f))
    aa = m.AntennaArray((V.angle('lat', -1.5, 1.5), V.angle('lon', -3, 3)), [m.Antenna(P[k][0], P[k][1], P[k][2], B(k), phsoff=o[k], bp_r=g[k][0], bp_i=g[k][1], amp=g[k][2]) for k in range(2)])
    aa.set_jultime(V.real('t', 2450000, 2460000))
    G = lambda k, c: g[k][2] * (polyval(g[k][0], f[c]) + 1j * polyval(g[k][1], f[c]))
    return aa, P, o, G
def heights(M, aa, us):
    l, la = aa.sidereal_time(), aa.lat; c, s, cl, sl = M.np.cos(l), M.np.sin(l), M.np.cos(la), M.np.sin(la)
    tops = []
    for u in us:
        e = -s*u[0] + c*u[1]; r = c*u[0] + s*u[1]
        tops.append([e, -sl*r + cl*u[2], cl*r + sl*u[2]])
    return tops
def stack(V, us): return V.arr([[u[c] for u in us] for c in range(3)])

def total(M, V, ck):
    """Two sources, flat beam: the closed form of every term."""
    f = freqs(V, 2); aa, P, o, G = mk(M, V, f, 'flat', V.choose('mod', ['amp', 'fit'])); aa.set_active_pol('xx')
    us = [V.unit('u0'), V.unit('u1')]; J = V.array('J', (2, 2), 0, 100)
    tops = heights(M, aa, us)
    for t in tops: V.assume((t[2] > 0.05) | (t[2] < -0.05))
    aa.sim_cache(stack(V, us), jys=J.copy())
    v = aa.sim(0, 1)
    ck.shape(v, (2,), 'one visibility per channel')
    for c in range(2):
        S = 0
        for k in range(2):
            if not (tops[k][2] > 0): continue
            wk = aa.get_baseline(0, 1, stack(V, us[k:k+1]))[2][0]
            S = S + J[k][c] * cis(M, 2*M.np.pi*(wk*f[c] + polyval(o[1], f[c]) - polyval(o[0], f[c])))
        ck.eq(v[c], S * G(1, c) * G(0, c).conjugate(), 'sum over the sources above the horizon', tol=1e-5)

def geometry(M, V, ck):
    """One source: the phase is that of the projection of the baseline on its direction."""
    f = freqs(V, 1); aa, P, o, G = mk(M, V, f, 'flat', offs=False); aa.set_active_pol('xx')
    ra, dec = V.angles('ra', (1,), .1, 6), V.angles('dec', (1,), -1.4, 1.4); V.assume(M.np.cos(dec[0]) > 0.1)
    eq = M.coord.radec2eq((ra, dec)); u = [eq[c][0] for c in range(3)]
    top = heights(M, aa, [u])[0]; V.assume(top[2] > 0.05)
    aa.sim_cache(eq, jys=V.arr([[1.]]))
    v = aa.sim(0, 1)
    h = aa.sidereal_time() - ra[0]
    b = [P[1][q] - P[0][q] for q in range(3)]
    w = M.np.cos(dec[0]) * (M.np.cos(h)*b[0] - M.np.sin(h)*b[1]) + M.np.sin(dec[0])*b[2]
    w0 = aa.get_baseline(0, 1, eq)[2][0]; ck.eq(w0, w, 'w is the projection on the source direction')
    ck.eq(M.np.array(v).reshape((-1,))[0], G(1, 0) * G(0, 0).conjugate() * cis(M, 2*M.np.pi*w0*f[0]), 'phase of the projection on the source direction', tol=1e-4)

def single(M, aa, V, u, J, i, j, mf, ion, shp):
    ph = aa.gen_phs(stack(V, [u]), i, j, mfreq=mf, ionref=ion, srcshape=shp, resolve_src=True)
    return M.np.conjugate(ph)

def terms_xy(M, V, ck): terms(M, V, ck, 'xy')
def terms_yx(M, V, ck): terms(M, V, ck, 'yx')
def terms(M, V, ck, pol):
    """Every source has its own beam, ionospheric and size terms and reference frequency."""
    f = freqs(V, 2)
    aa, P, o, G = mk(M, V, f, 'gauss'); aa.set_active_pol(pol)
    us = [V.unit('u0'), V.unit('u1')]; J = V.array('J', (2, 2), 0, 100)
    tops = heights(M, aa, us)
    for t in tops: V.assume((t[2] > 0.05) | (t[2] < -0.05))
    mf, dra, ddec = V.array('mf', (2,), .1, .2), V.array('dra', (2,), -.01, .01), V.array('ddec', (2,), -.01, .01)
    a1, a2, th = V.array('a1', (2,), .001, .01), V.array('a2', (2,), .001, .01), V.angles('th', (2,), -3, 3)
    keep = [x.copy() for x in (mf, dra, ddec, a1, a2, th, J)]
    aa.sim_cache(stack(V, us), jys=J, mfreqs=mf, ionrefs=(dra, ddec), srcshapes=(a1, a2, th))
    v = aa.sim(0, 1)
    ck.shape(v, (2,), 'one visibility per channel')
    for x, y in zip((mf, dra, ddec, a1, a2, th, J), keep): ck.eq(list(x.reshape((-1,))), list(y.reshape((-1,))), 'the catalogue values are not modified')
    S = [0, 0]
    for k in range(2):
        if not (tops[k][2] > 0): continue
        E = single(M, aa, V, us[k], J, 0, 1, mf[k], (dra[k], ddec[k]), (a1[k], a2[k], th[k]))
        t = V.arr([[x] for x in M.np.dot(aa.eq2top_m, us[k])])
        b = aa[1].bm_response(t, pol=pol[1]) * aa[0].bm_response(t, pol=pol[0])
        for c in range(2): S[c] = S[c] + J[k][c] * E[c] * b[c][0]
    for c in range(2): ck.eq(v[c], S[c] * G(1, c) * G(0, c).conjugate(), "sum of each source's own terms", tol=1e-5)

def hermitian(M, V, ck):
    f = freqs(V, 2); pol = V.choose('pol', ['xx', 'xy', 'yx', 'yy'])
    aa, P, o, G = mk(M, V, f, 'gauss')
    us = [V.unit('u0')]; J = V.array('J', (1, 2), 0, 100)
    top = heights(M, aa, us)[0]; V.assume(top[2] > 0.05)
    aa.sim_cache(stack(V, us), jys=J)
    aa.set_active_pol(pol); v = aa.sim(0, 1)
    aa.set_active_pol(pol[::-1]); w = aa.sim(1, 0)
    for c in range(2): ck.eq(w[c], v[c].conjugate(), 'swapping antennas and polarizations conjugates the visibility', tol=1e-5)
    aa.set_active_pol(pol); v2 = aa.sim(0, 1)
    ck.eq(v2, v, 'simulating again gives the same')

def order(M, V, ck):
    f = freqs(V, 1); aa, P, o, G = mk(M, V, f, 'flat', offs=False); aa.set_active_pol('xx')
    us = [V.unit('u0'), V.unit('u1'), [0.0, 0.6, 0.8]]; J = V.array('J', (3, 1), 0, 100); mf = V.array('mf', (3,), .1, .2); dra = V.array('dra', (3,), -.01, .01)
    tops = heights(M, aa, us)
    V.assume((tops[0][2] > 0.05) | (tops[0][2] < -0.05))
    for t in tops[1:]: V.assume(t[2] > 0.05)
    perm = V.choose('perm', [(1, 0, 2), (2, 0, 1)])
    r = []
    for p in ((0, 1, 2), perm):
        p = list(p)
        aa.sim_cache(stack(V, [us[k] for k in p]), jys=J.take(p, axis=0), mfreqs=mf.take(p), ionrefs=(dra.take(p), dra.take(p)))
        r.append(aa.sim(0, 1))
    ck.eq(r[0], r[1], 'the order of the sources does not matter', tol=1e-5)

def empty(M, V, ck):
    f = freqs(V, 2); aa, P, o, G = mk(M, V, f, 'gauss'); aa.set_active_pol('xy')
    us = [V.unit('u0'), V.unit('u1')]
    tops = heights(M, aa, us)
    for t in tops: V.assume(t[2] < -0.01)
    aa.sim_cache(stack(V, us), jys=V.array('J', (2, 2), 0, 100))
    v = aa.sim(0, 1); ck.shape(v, (2,), 'one visibility per channel'); ck.eq(v, V.arr([0., 0.]), 'an empty sky gives zeros')
    # the sky may fill up again
    u = V.unit('w'); t = heights(M, aa, [u])[0]; V.assume(t[2] > 0.05)
    aa.sim_cache(stack(V, [u]), jys=V.arr([[1., 2.]])); v = aa.sim(0, 1)
    E = single(M, aa, V, u, None, 0, 1, .15, (0., 0.), (0, 0, 0)); tt = V.arr([[x] for x in M.np.dot(aa.eq2top_m, u)])
    b = aa[1].bm_response(tt, pol='y') * aa[0].bm_response(tt, pol='x')
    for c in range(2): ck.eq(v[c], (c + 1.) * E[c] * b[c][0] * G(1, c) * G(0, c).conjugate(), 'a new sky replaces the old one', tol=1e-5)

def replaced(M, V, ck):
    """New source positions at the same time replace the old ones completely."""
    f = freqs(V, 1); aa, P, o, G = mk(M, V, f, 'gauss', offs=False); aa.set_active_pol('xx')
    us = [V.unit('u0'), V.unit('u1')]; tops = heights(M, aa, us)
    for t in tops: V.assume(t[2] > 0.05)
    for k in range(2):
        j = V.real('j%d' % k, 0, 9)
        aa.sim_cache(stack(V, us[k:k+1]), jys=V.arr([[j]])); v = aa.sim(0, 1)
        E = single(M, aa, V, us[k], None, 0, 1, .15, (0., 0.), (0, 0, 0)); t = V.arr([[x] for x in M.np.dot(aa.eq2top_m, us[k])])
        b = aa[1].bm_response(t) * aa[0].bm_response(t)
        ck.eq(M.np.array(v).reshape((-1,))[0], j * M.np.array(E).reshape((-1,))[0] * b[0][0] * G(1, 0) * G(0, 0).conjugate(), 'a new sky replaces the old one', tol=1e-5)

def fromcat(M, V, ck):
    """Catalogue to visibility: the fluxes and positions of a catalogue of two sources."""
    f = freqs(V, 2); aa, P, o, G = mk(M, V, f, 'flat', 'fit', offs=False); aa.set_active_pol('yy')
    S = [M.fit.RadioFixedBody(V.real('ra%d' % k, .1, 6), V.real('dec%d' % k, -1, 1), name='s%d' % k, jys=V.real('j%d' % k, 0, 9), index=(-1, 1)[k], mfreq=.15) for k in range(2)]
    cat = M.fit.SrcCatalog(S); cat.compute(aa)
    eqs = cat.get_crds('eq', ncrd=3); J = cat.get_jys(); mfq = cat.get('mfreq'); dra, ddec = cat.get('ionref'); a1, a2, th = cat.get('srcshape')
    us = [[eqs[c][k] for c in range(3)] for k in range(2)]
    tops = heights(M, aa, us)
    for t in tops: V.assume((t[2] > 0.05) | (t[2] < -0.05))
    aa.sim_cache(eqs, J, mfreqs=mfq, ionrefs=(dra, ddec), srcshapes=(a1, a2, th)); v = aa.sim(0, 1)
    for c in range(2):
        T = 0
        for k in range(2):
            if not (tops[k][2] > 0): continue
            wk = aa.get_baseline(0, 1, stack(V, us[k:k+1]))[2][0]
            T = T + S[k]._jys * (f[c] / .15)**S[k].index * cis(M, 2*M.np.pi*wk*f[c])
        ck.eq(v[c], T * G(1, c) * G(0, c).conjugate(), 'sum over the catalogue', tol=1e-4)

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS, budget=(300, 900)) for g in (total, geometry, terms_xy, terms_yx, hermitian, order, empty, replaced, fromcat)]
