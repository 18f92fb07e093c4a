from vlib.harness import Scenario
from checks.common import *
from vlib import hstub
STUBS = dict(STUBS, healpy=hstub.module)
BOUNDS = '3 channels at any frequencies, sequences of two selections out of nine (orders, repeats, single, empty restriction to all, negative indices), every class with frequency-dependent results; 2 antennas'
OUTSIDE = 'more than 3 channels; out-of-range channel numbers'
EXPLANATION = 'Results after a sequence of channel selections are compared with the full-band results of an identical object, for symbolic frequencies and parameters.'
SEL = [[0], [2], [1, 2], [2, 0], [0, 1, 2], [2, 1, 0], [1, 1], [-1], None]
PAIRS = [([0], [2]), ([2], None), ([1, 2], [0, 1]), ([2, 0], [0, 2]), ([2, 1, 0], [1]), ([1, 1], [0]), ([-1], [0, 1, 2]), (None, [1, 2]), ([0, 1, 2], [2, 0, 1])]
def pick(V, k): return V.choose('sel%d' % k, SEL)
def want(s): return [0, 1, 2] if s is None else s
def sub(full, s, axis): return M_take(full, want(s), axis)
def M_take(a, idx, axis):
    import numpy as np
    a = a if hasattr(a, 'take') else np.array(a)
    return a.take(idx, axis=axis)
def two(M, V, ck, obj, full, get, axis, what):
    """Select twice; get(obj) must be the selected part of full each time, then select everything."""
    pr = V.choose('pair', PAIRS); form = V.choose('form', [list, M.np.array])
    for s in pr:
        obj.select_chans(form(s)) if s is not None else obj.select_chans()
        for nm in full:
            ck.eq(get(obj)[nm], M_take(full[nm], want(s), axis[nm]), '%s: %s after a selection' % (what, nm))
    obj.select_chans()
    for nm in full: ck.eq(get(obj)[nm], full[nm], '%s: %s after selecting everything again' % (what, nm))

def beams(M, V, ck):
    kind = V.choose('kind', ['phs', 'amp', 'gauss', 'poly', 'fitpoly'])
    f = freqs(V, 3); u = V.unit('u'); V.assume(u[2] > 0.1)
    top = lambda: V.arr([[u[0]], [u[1]], [u[2]]])
    P = V.array('P', (2, 2), .1, 1); w = [V.real('xw', .1, 1), V.real('yw', .1, 1)]
    mk = {'phs': lambda: M.phs.Beam(f), 'amp': lambda: M.amp.Beam(f), 'gauss': lambda: M.amp.Beam2DGaussian(f, *w), 'poly': lambda: M.amp.BeamPolynomial(f, P.copy()), 'fitpoly': lambda: M.fit.BeamPolynomial(f, P.copy())}[kind]
    def get(b):
        d = {'active frequencies': b.afreqs}
        if kind != 'phs': d['response'] = b.response(top())
        if 'poly' in kind: d['width'] = b.sigma
        return d
    two(M, V, ck, mk(), get(mk()), get, {'active frequencies': 0, 'response': 0, 'width': 1}, kind)
    ck.eq(mk().afreqs, f, 'all channels are active to begin with')

def beam_alm(M, V, ck):
    f = freqs(V, 3)
    C = {k: V.carray('c%d_' % k, (3,), -1, 1) for k in (0, 1)}
    mk = lambda: M.fit.BeamAlm(f, lmax=1, mmax=1, deg=1, nside=1, coeffs={k: C[k].copy() for k in C})
    import numpy as np
    get = lambda b: {'active frequencies': b.afreqs, 'response': b.response((np.array([.1, .6]), np.array([.2, 0.]), np.array([np.sqrt(.95), .8])))}
    s1 = pick(V, 1); b = mk(); full = get(b)
    b.select_chans(s1); g = get(b)
    for nm in full: ck.eq(g[nm], M_take(full[nm], want(s1), 0), 'alm: %s after a selection' % nm)
    b.select_chans(); g = get(b)
    for nm in full: ck.eq(g[nm], full[nm], 'alm: %s after selecting everything again' % nm)

def antenna(M, V, ck):
    kind = V.choose('kind', ['phs', 'amp', 'fit'])
    f = freqs(V, 3); o = [V.real('o%d' % k, -9, 9) for k in range(3)]; br, bi, am = V.array('br', (2,), -5, 5), V.array('bi', (2,), -5, 5), V.real('amp', -5, 5)
    m = getattr(M, kind); kw = {} if kind == 'phs' else dict(bp_r=br, bp_i=bi, amp=am)
    mk = lambda: m.Antenna(0., 0., 0., m.Beam(f), phsoff=o, **kw)
    def get(a):
        d = {'frequencies': a.beam.afreqs, 'phase': a.phsoff}
        if kw: d['gain'] = a.passband()
        return d
    two(M, V, ck, mk(), get(mk()), get, {'frequencies': 0, 'phase': 0, 'gain': 0}, kind)

def polant(M, V, ck):
    f = freqs(V, 3); d = lambda nm, n: {p: [V.real('%s%s%d' % (nm, p, k), -5, 5) for k in range(n)] for p in 'xy'}
    o, br, bi, am = d('o', 2), d('br', 2), d('bi', 1), {p: V.real('a' + p, -5, 5) for p in 'xy'}
    mk = lambda: M.pol.Antenna(0., 0., 0., M.fit.Beam(f), phsoff=o, bp_r=br, bp_i=bi, amp=am)
    get = lambda a: {'phase x': a.phsoff['x'], 'phase y': a.phsoff['y'], 'gain x': a.passband(pol='x'), 'gain y': a.passband(pol='y')}
    two(M, V, ck, mk(), get(mk()), get, {'phase x': 0, 'phase y': 0, 'gain x': 0, 'gain y': 0}, 'pol')

def array(M, V, ck):
    kind = V.choose('kind', ['phs', 'amp'])
    f = freqs(V, 3); m = getattr(M, kind); same = V.choose('shared', [False, True])
    P = pos(V, 2); o = [[V.real('o%d%d' % (k, c), -9, 9) for c in range(2)] for k in range(2)]
    bp = [V.array('bp%d_' % k, (2,), -5, 5) for k in range(2)]
    la, lo, t = V.angle('lat', -1.5, 1.5), V.angle('lon', -3, 3), V.real('t', 2450000, 2460000)
    def mk():
        B = m.Beam(f)
        ants = [m.Antenna(P[k][0], P[k][1], P[k][2], B if same else m.Beam(f), phsoff=o[k], **({} if kind == 'phs' else dict(bp_r=bp[k]))) for k in range(2)]
        aa = m.AntennaArray((la, lo), ants); aa.set_jultime(t); return aa
    def get(aa):
        d = {'frequencies': aa.get_afreqs(), 'phase offset': aa.get_phs_offset(0, 1), 'uvw': aa.gen_uvw(0, 1, 'z').reshape((3, -1)), 'phases': aa.gen_phs('z', 0, 1).reshape((-1,))}
        if kind != 'phs': d['passband'] = aa.passband(0, 1)
        return d
    aa = mk()
    two(M, V, ck, aa, get(mk()), get, {'frequencies': 0, 'phase offset': 0, 'uvw': 1, 'phases': 0, 'passband': 0}, kind)
    ck.eq(aa.get_freqs(), f, 'the full band stays known')

def sources(M, V, ck):
    """A source's phase, size and ionospheric terms and flux follow the selection."""
    f = freqs(V, 3); aa = M.amp.AntennaArray((0.5, 0.2), [M.amp.Antenna(p[0], p[1], p[2], M.amp.Beam(f)) for p in pos(V, 2)])
    aa.set_jultime(V.real('t', 2450000, 2460000))
    s = source(M, V, mod='amp', jys=V.real('j', 0, 9), index=-1, mfreq=.15, ionref=(V.real('dra', -.01, .01), V.real('ddec', -.01, .01)))
    s.compute(aa); V.assume(s.alt > 0.01)
    g = lambda: {'uvw': aa.gen_uvw(0, 1, s).reshape((3, -1)), 'phases': aa.gen_phs(s, 0, 1).reshape((-1,)), 'flux': s.get_jys()}
    full = g(); s1 = pick(V, 1)
    aa.select_chans(s1); s.compute(aa); r = g()
    for nm, ax in (('uvw', 1), ('phases', 0), ('flux', 0)): ck.eq(r[nm], M_take(full[nm], want(s1), ax), 'source: %s after a selection' % nm)

def simulated(M, V, ck):
    """A simulation after a selection never uses what was cached for another one."""
    f = freqs(V, 3); pol = V.choose('pol', ['xx', 'yx'])
    W = V.array('P', (1, 2), .2, 1)
    def mk():
        aa = M.amp.AntennaArray((0.5, 0.2), [M.amp.Antenna(0., 0., 0., M.amp.BeamPolynomial(f, W.copy()), bp_r=V_bp[k]) for k in range(2)])
        aa.set_jultime(2455000.25); aa.set_active_pol(pol); return aa
    V_bp = [V.array('bp%d_' % k, (2,), -5, 5) for k in range(2)]
    aa = mk(); J = V.array('J', (1, 3), 0, 9)
    x = M.np.dot(M.np.linalg.inv(aa.eq2top_m) if not V.symbolic else aa.eq2top_m.transpose(), V.arr([[0.], [0.6], [0.8]]))
    aa.sim_cache(x, jys=J); full = aa.sim(0, 1)
    s1, s2 = V.choose('pair', [([0], [2]), ([0, 1], [1, 2]), ([2, 0], [0, 2]), (None, [1]), ([0], [1])])
    for s in (s1, s2):
        aa.select_chans(s)
        try: v = aa.sim(0, 1)
        except RuntimeError:
            aa.sim_cache(x, jys=J.take(want(s), axis=1)); v = aa.sim(0, 1)
        ck.eq(v, M_take(full, want(s), 0), 'simulation after a selection', tol=1e-9)

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (beams, beam_alm, antenna, polant, array, sources, simulated)]
