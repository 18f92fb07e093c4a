from vlib.harness import Scenario
from checks.common import *
BOUNDS = '2 to 3 antennas with two feeds, 2 channels, phase polynomials of 2 or 3, passbands of 1 or 2 coefficients, all four linear polarizations, every single parameter and every all-but-one subset'
OUTSIDE = 'Stokes combinations'
EXPLANATION = 'pol.Antenna and pol.AntennaArray executed on symbolic parameters of every feed.'
NP = {'x': (3, 2, 1), 'y': (2, 1, 2)}
def mk(M, V, f, n=2, beam=None):
    P, ants = [], []
    for k in range(n):
        d = {}
        for p in 'xy':
            a, b, c = NP[p]
            d['phsoff_' + p] = [V.real('o%d%s%d' % (k, p, q), -9, 9) for q in range(a)]
            d['bp_r_' + p] = [V.real('r%d%s%d' % (k, p, q), -5, 5) for q in range(b)]
            d['bp_i_' + p] = [V.real('i%d%s%d' % (k, p, q), -5, 5) for q in range(c)]
            d['amp_' + p] = V.real('a%d%s' % (k, p), -5, 5)
        for c in 'xyz': d[c] = V.real('%s%d' % (c, k), -99, 99)
        P.append(d)
        g = lambda nm: {p: (list(d[nm + p]) if isinstance(d[nm + p], list) else d[nm + p]) for p in 'xy'}
        ants.append(M.pol.Antenna(d['x'], d['y'], d['z'], beam(k) if beam else M.fit.Beam(f), phsoff=g('phsoff_'), bp_r=g('bp_r_'), bp_i=g('bp_i_'), amp=g('amp_')))
    aa = M.pol.AntennaArray((V.angle('lat', -1.2, 1.2), V.angle('lon', -3, 3)), ants)
    return aa, P
def G(d, p, f): return d['amp_' + p] * (polyval(d['bp_r_' + p], f) + 1j * polyval(d['bp_i_' + p], f))
def O(d, p, f): return polyval(d['phsoff_' + p], f)
def verify(M, ck, aa, P, f, tag=''):
    for k, d in enumerate(P):
        for p in 'xy':
            for c in range(2):
                ck.eq(aa[k].passband(pol=p)[c], G(d, p, f[c]), 'each feed has its own gain' + tag)
                ck.eq(aa[k].passband(pol=p, conj=True)[c], G(d, p, f[c]).conjugate(), 'conjugated gain' + tag)
                ck.eq(aa[k].phsoff[p][c], O(d, p, f[c]), 'each feed has its own phase' + tag)
    for pol in ('xx', 'xy', 'yx', 'yy'):
        aa.set_active_pol(pol)
        for i, j in ((0, 1), (1, 0), (1, 1)):
            b, o = aa.passband(i, j), aa.get_phs_offset(i, j)
            for c in range(2):
                ck.eq(b[c], G(P[j], pol[1], f[c]) * G(P[i], pol[0], f[c]).conjugate(), "first letter's feed of the first antenna, second letter's of the second (passband)" + tag)
                ck.eq(o[c], O(P[j], pol[1], f[c]) - O(P[i], pol[0], f[c]), "first letter's feed of the first antenna, second letter's of the second (phase)" + tag)
def feeds(M, V, ck):
    f = freqs(V, 2); aa, P = mk(M, V, f, 2); verify(M, ck, aa, P, f)
    aa.select_chans([1]); aa.set_active_pol('yx')
    ck.eq(list(aa.passband(0, 1)), [G(P[1], 'x', f[1]) * G(P[0], 'y', f[1]).conjugate()], 'feeds follow the channel selection')

def full(d):
    r = dict(d)
    for p in 'xy': r['dly_' + p] = d['phsoff_' + p][-2]; r['off_' + p] = d['phsoff_' + p][-1]
    return r
def veq(ck, a, b, msg): ck.eq(list(a), list(b), msg) if hasattr(b, '__len__') else ck.eq(a, b, msg)
def params(M, V, ck):
    f = freqs(V, 2); aa, P = mk(M, V, f, 2)
    a = aa[0]; d = P[0]; F = full(d)
    r = a.get_params(['*'])
    ck.true(set(r) == set(F), 'every parameter of every feed is read out')
    for n in F: veq(ck, r[n], F[n], 'each parameter reads the value of its feed')
    one = V.choose('one', [k for k in sorted(F)])
    g = a.get_params([one]); ck.true(set(g) == {one}, 'a named parameter alone'); veq(ck, g[one], F[one], 'the named parameter')
    new = [V.real('n%d' % q, -5, 5) for q in range(len(F[one]))] if isinstance(F[one], list) else V.real('n', -5, 5)
    a.set_params({one: list(new) if isinstance(new, list) else new})
    if one.startswith('dly'): d['phsoff_' + one[-1]] = d['phsoff_' + one[-1]][:-2] + [new, d['phsoff_' + one[-1]][-1]]
    elif one.startswith('off'): d['phsoff_' + one[-1]] = d['phsoff_' + one[-1]][:-1] + [new]
    else: d[one] = new
    F2 = full(d); r2 = a.get_params(['*'])
    for n in F2: veq(ck, r2[n], F2[n], 'setting a parameter of one feed changes that feed only')
    verify(M, ck, aa, P, f, ' after setting a parameter')
    # what was read can be set back
    a.set_params(r)
    r3 = a.get_params(['*'])
    for n in F: veq(ck, r3[n], F[n], 'every parameter read out can be set back')

def readcopy(M, V, ck):
    f = freqs(V, 2); aa, P = mk(M, V, f, 2)
    r = aa[0].get_params(['phsoff_x', 'bp_r_x', 'bp_i_x'])
    aa[0].set_params({'dly_x': V.real('nd', -5, 5)})
    ck.eq(list(r['phsoff_x']), P[0]['phsoff_x'], 'what was read is not changed by a later setting')
    aa[0].set_params(r); verify(M, ck, aa, P, f, ' after setting back')
    given = [V.real('q%d' % k, -5, 5) for k in range(3)]; keep = list(given)
    for k in (0, 1): aa[k].set_params({'phsoff_x': given}); P[k]['phsoff_x'] = keep
    n = V.real('n2', -5, 5); aa[1].set_params({'off_x': n}); P[1]['phsoff_x'] = keep[:2] + [n]
    verify(M, ck, aa, P, f, ' of antennas set from one list')

def sharedargs(M, V, ck):
    """Antennas made from the same dictionaries stay independent."""
    f = freqs(V, 2)
    ph = {p: [V.real('o%s%d' % (p, q), -9, 9) for q in range(2)] for p in 'xy'}
    br = {p: [V.real('r' + p, -5, 5)] for p in 'xy'}; bi = {p: [V.real('i' + p, -5, 5)] for p in 'xy'}; am = {p: V.real('a' + p, -5, 5) for p in 'xy'}
    P = [dict([('phsoff_' + p, list(ph[p])) for p in 'xy'] + [('bp_r_' + p, list(br[p])) for p in 'xy'] + [('bp_i_' + p, list(bi[p])) for p in 'xy'] + [('amp_' + p, am[p]) for p in 'xy']) for k in range(2)]
    aa = M.pol.AntennaArray((0.5, 0.2), [M.pol.Antenna(0., 0., 0., M.fit.Beam(f), phsoff=ph, bp_r=br, bp_i=bi, amp=am) for k in range(2)])
    what = V.choose('what', ['off_y', 'dly_x', 'amp_x', 'bp_r_y', 'bp_i_x', 'phsoff_y'])
    n = V.real('n', -5, 5); new = [n] if what.startswith('bp') else [n, V.real('n1', -5, 5)] if what.startswith('phsoff') else n
    aa[0].set_params({what: new})
    if what.startswith('off'): P[0]['phsoff_y'][-1] = n
    elif what.startswith('dly'): P[0]['phsoff_x'][-2] = n
    else: P[0][what] = new
    for a in aa: a.update()
    verify(M, ck, aa, P, f, ' of antennas made from the same arguments')

def array(M, V, ck):
    f = freqs(V, 2); aa, P = mk(M, V, f, 2)
    r = aa.get_params({'*': '*'})
    new = {'1': {'bp_i_y': [V.real('q0', -5, 5), V.real('q1', -5, 5)], 'amp_x': V.real('q2', -5, 5)}, '0': {'off_y': V.real('q3', -5, 5)}}
    aa.set_params(new)
    P[1].update(new['1']); P[0]['phsoff_y'] = P[0]['phsoff_y'][:-1] + [new['0']['off_y']]
    verify(M, ck, aa, P, f, ' after setting array parameters')

def phased(M, V, ck):
    """The phase towards a source uses the feeds of the active polarization."""
    f = freqs(V, 2); aa, P = mk(M, V, f, 2)
    aa.set_jultime(V.real('t', 2450000, 2460000))
    pol = V.choose('pol', ['xx', 'xy', 'yx', 'yy']); aa.set_active_pol(pol)
    ph = aa.gen_phs('z', 0, 1); w = aa.get_baseline(0, 1, 'z')[2]
    for c in range(2): ck.eq(ph[c], cis(M, -2*M.np.pi*(w*f[c] + O(P[1], pol[1], f[c]) - O(P[0], pol[0], f[c]))), 'phasing uses the feeds of the active polarization', tol=1e-4)

def beams(M, V, ck):
    """Beam responses use the feeds of the active polarization."""
    f = V.arr([.1, .2]); W = [(V.real('wx%d' % k, .2, 1), V.real('wy%d' % k, .2, 1)) for k in range(2)]
    aa = M.pol.AntennaArray((0.5, 0.2), [M.pol.Antenna(0., 0., 0., M.fit.Beam2DGaussian(f, *W[k]), phsoff={'x': [0., 0.], 'y': [0., 0.]}, bp_r={'x': [1.], 'y': [1.]}, bp_i={'x': [0.], 'y': [0.]}, amp={'x': 1., 'y': 1.}) for k in range(2)])
    aa.set_jultime(2455000.)
    l = aa.sidereal_time(); u = V.unit('u'); x = V.arr([[u[0]], [u[1]], [u[2]]])
    top = M.np.dot(aa.eq2top_m, x); V.assume(top[2][0] > 0.1)
    for pol in ('xy', 'yy', 'yx', 'xx'):
        aa.sim_cache(x, jys=V.arr([[1., 1.]])) if pol == 'xy' else None
        aa.set_active_pol(pol)
        b = aa.bm_response(0, 1)
        want = aa[1].bm_response(top, pol=pol[1]).transpose() * aa[0].bm_response(top, pol=pol[0]).transpose()
        ck.eq(b, want, 'beam of the second letter of the second antenna times that of the first letter of the first')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (feeds, params, readcopy, sharedargs, array, phased, beams)]
