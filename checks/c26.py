from vlib.harness import Scenario
from checks.common import *
from vlib import hstub
BOUNDS = ('every single parameter, every all-but-one subset, the empty and the full set, of fixed and moving sources, catalogues of 2 sources, the flat, Gaussian, polynomial '
          'and spherical-harmonic beams (lmax 2, degree 1), antennas and arrays of 2 to 3 antennas; any values')
OUTSIDE = 'conflicting overlapping parameters (phsoff together with dly or off in one call)'
EXPLANATION = 'get_params/set_params executed on objects whose every parameter is a solver variable; read-back, untouched parameters and derived quantities are compared symbolically.'
STUBS = dict(STUBS, healpy=hstub.module)

def subset(V, names, tag='sub'):
    S = [()] + [(n,) for n in names] + [tuple(x for x in names if x != n) for n in names] + [tuple(names)]
    return V.choose(tag, S)
def veq(ck, a, b, msg):
    if hasattr(b, '__len__'): ck.eq(list(a), list(b), msg)
    else: ck.eq(a, b, msg)
def read_set(M, V, ck, o, names, newval, groups={}):
    """o: object; newval(name) -> new value; groups: name -> names whose value also changes with it."""
    before = o.get_params(['*'])
    ck.true(set(before) == set(names), 'a wildcard returns every parameter')
    snap = {k: (list(v) if hasattr(v, '__len__') else v) for k, v in before.items()}
    sub = subset(V, names)
    got = o.get_params(list(sub))
    ck.true(set(got) == set(sub), 'asking for named parameters returns just those')
    for n in sub: veq(ck, got[n], snap[n], 'a named parameter has the value the wildcard reports')
    new = {n: newval(n) for n in sub}
    o.set_params({k: (list(v) if isinstance(v, list) else v) for k, v in new.items()})
    after = o.get_params(['*'])
    ck.true(set(after) == set(names), 'the same parameters after setting')
    for n in names:
        if n in sub: veq(ck, after[n], new[n], 'a parameter that was set reads back')
        elif not any(n in groups.get(m, ()) for m in sub): veq(ck, after[n], snap[n], 'other parameters stay unchanged')
    # setting back what was read changes nothing
    o.set_params(o.get_params(['*']))
    again = o.get_params(['*'])
    for n in names: veq(ck, again[n], after[n] if not hasattr(after[n], '__len__') else list(after[n]), 'setting back what was read changes nothing')
    return new

SRC = ['jys', 'index', 'ra', 'dec', 'a1', 'a2', 'th', 'dra', 'ddec', 'mfreq']
def mksrc(M, V, k):
    return M.fit.RadioFixedBody(V.real('ra%d' % k, 0, 6), V.real('dec%d' % k, -1, 1), name='s%d' % k, jys=V.real('jys%d' % k, 0, 10), index=V.real('index%d' % k, -3, 3), mfreq=V.real('mf%d' % k, .1, .3),
        ionref=(V.real('dra%d' % k, -1, 1), V.real('ddec%d' % k, -1, 1)), srcshape=(V.real('a1%d' % k, 0, 1), V.real('a2%d' % k, 0, 1), V.real('th%d' % k, 0, 1)))
def fixed(M, V, ck):
    s, t = mksrc(M, V, 0), mksrc(M, V, 1)
    other = t.get_params(['*'])
    new = read_set(M, V, ck, s, SRC, lambda n: V.real('new' + n, 0.1, 6 if n == 'ra' else 1))
    again = t.get_params(['*'])
    for n in SRC: ck.eq(again[n], other[n], 'another source is untouched')
    ck.eq([s._ra - 0, s._dec - 0, s.mfreq], [s.get_params(['ra'])['ra'], s.get_params(['dec'])['dec'], s.get_params(['mfreq'])['mfreq']], 'the position and frequency used are the ones reported')
    f = freqs(V, 2); s.update_jys(f); q = s.get_params(['*'])
    s2 = M.fit.RadioFixedBody(q['ra'], q['dec'], jys=q['jys'], index=q['index'], mfreq=q['mfreq'])
    s2.update_jys(f); ck.eq(s.get_jys(), s2.get_jys(), 'the spectrum follows the parameters')

def special(M, V, ck):
    names = ['jys', 'index', 'a1', 'a2', 'th', 'dra', 'ddec']
    mk = lambda k: M.fit.RadioSpecial('Sun', jys=V.real('jys%d' % k, 0, 10), index=V.real('index%d' % k, -3, 3), mfreq=.15,
        ionref=(V.real('dra%d' % k, -1, 1), V.real('ddec%d' % k, -1, 1)), srcshape=(V.real('a1%d' % k, 0, 1), V.real('a2%d' % k, 0, 1), V.real('th%d' % k, 0, 1)))
    s, t = mk(0), mk(1); other = t.get_params(['*'])
    read_set(M, V, ck, s, names, lambda n: V.real('new' + n, 0.1, 1))
    again = t.get_params(['*'])
    for n in names: ck.eq(again[n], other[n], 'another source is untouched')

def catalog(M, V, ck):
    S = [mksrc(M, V, k) for k in range(2)]; cat = M.fit.SrcCatalog(S)
    before = {s.src_name: s.get_params(['*']) for s in S}
    sel = V.choose('sel', [({'*': '*'}, {'s0': SRC, 's1': SRC}), ({'s1': ['ra', 'jys']}, {'s1': ['ra', 'jys']}), ({'*': 'index'}, {'s0': ['index'], 's1': ['index']}), ({'s0': '*', 's1': 'dec'}, {'s0': SRC, 's1': ['dec']}), ({'nobody': '*', 's1': ['a1']}, {'s1': ['a1']})])
    got = cat.get_params(sel[0])
    ck.true(set(got) == set(sel[1]), 'the named sources')
    for n in got:
        ck.true(set(got[n]) == set(sel[1][n]), 'exactly the named parameters of a source')
        for p in got[n]: ck.eq(got[n][p], before[n][p], 'the value of the source')
    new = {n: {p: V.real('n%s%s' % (n, p), .1, 1) for p in sel[1][n]} for n in sel[1]}
    cat.set_params(dict(new, **{'0': {'x': V.real('antx')}}))
    for n in before:
        a = cat[n].get_params(['*'])
        for p in SRC: ck.eq(a[p], new.get(n, {}).get(p, before[n][p]), 'exactly the named parameters of the named sources change')

def beam_gauss(M, V, ck):
    f = freqs(V, 2)
    b = M.fit.Beam2DGaussian(f, V.real('xw', .1, 1), V.real('yw', .1, 1))
    read_set(M, V, ck, b, ['bm_xwidth', 'bm_ywidth'], lambda n: V.real('new' + n, .1, 1))
    q = b.get_params(['*']); x = V.unit('u')
    r = b.response(V.arr([[x[0]], [x[1]], [x[2]]]))
    r2 = M.fit.Beam2DGaussian(f, q['bm_xwidth'], q['bm_ywidth']).response(V.arr([[x[0]], [x[1]], [x[2]]]))
    ck.eq(r, r2, 'the response follows the parameters')
    p = M.fit.Beam(f); ck.true(p.get_params(['*']) == {}, 'the flat beam has no parameters')

def beam_poly(M, V, ck):
    f = freqs(V, 2)
    P = V.array('P', (2, 2), .1, 1)
    b = M.fit.BeamPolynomial(f, P)
    how = V.choose('as', ['array', 'list'])
    new = V.array('N', (4,), .1, 1)
    read_set(M, V, ck, b, ['bm_poly'], lambda n: new.copy() if how == 'array' else list(new))
    q = b.get_params(['*'])['bm_poly']
    b2 = M.fit.BeamPolynomial(f, q.reshape((2, 2)))
    ck.eq(b.sigma, b2.sigma, 'the width of the beam follows the parameters')
    ck.shape(b.poly, (2, 2), 'the parameters keep their arrangement')

def beam_alm(M, V, ck):
    f = V.arr([.1, .15])
    C = {k: V.carray('c%d_' % k, (3,), -1, 1) for k in (0, 1)}
    b = M.fit.BeamAlm(f, lmax=1, mmax=1, deg=1, nside=1, coeffs={k: C[k].copy() for k in C})
    p = b.get_params(['*'])
    ck.true(set(p) == {'alm0', 'alm1'}, 'a wildcard returns every term')
    for k in (0, 1): ck.eq(list(p['alm%d' % k]), [z for c in C[k] for z in (c.real, c.imag)], 'each polynomial term reads back as it was given')
    ck.true(set(b.get_params(['alm1'])) == {'alm1'}, 'asking for a term returns just that term')
    maps = [list(h.map) for h in b.hmap]
    b.set_params(p)
    p2 = b.get_params(['*'])
    for k in (0, 1): ck.eq(list(p2['alm%d' % k]), list(p['alm%d' % k]), 'setting back what was read changes nothing')
    for k in (0, 1): ck.eq(list(b.hmap[k].map), maps[k], 'setting back what was read changes no map')
    which = V.choose('which', [0, 1]); new = V.array('n', (6,), -1, 1)
    b.set_params({'alm%d' % which: list(new)})
    p3 = b.get_params(['*'])
    ck.eq(list(p3['alm%d' % which]), list(new), 'a term that was set reads back')
    ck.eq(list(p3['alm%d' % (1 - which)]), list(p['alm%d' % (1 - which)]), 'the other term stays unchanged')
    C2 = dict(C); C2[which] = V.arr([new[2*k] + 1j * new[2*k+1] for k in range(3)])
    b2 = M.fit.BeamAlm(f, lmax=1, mmax=1, deg=1, nside=1, coeffs={k: C2[k].copy() for k in C2})
    for k in (0, 1): ck.eq(list(b.hmap[k].map), list(b2.hmap[k].map), 'the sky maps follow the parameters')

ANT = ['x', 'y', 'z', 'dly', 'off', 'phsoff', 'bp_r', 'bp_i', 'amp']
def newant(V, n, tag=''):
    L = {'phsoff': 3, 'bp_r': 2, 'bp_i': 1}.get(n)
    return V.real('new%s%s' % (tag, n), -5, 5) if L is None else [V.real('new%s%s%d' % (tag, n, k), -5, 5) for k in range(L)]
def mkant(M, V, k, f, phsoff=True):
    kw = dict(phsoff=[V.real('o%d_%d' % (k, c), -9, 9) for c in range(3)]) if phsoff else {}
    return M.fit.Antenna(V.real('x%d' % k), V.real('y%d' % k), V.real('z%d' % k), M.fit.Beam2DGaussian(f, V.real('xw%d' % k, .1, 1), V.real('yw%d' % k, .1, 1)), bp_r=V.array('br%d' % k, (2,), -5, 5), bp_i=V.array('bi%d' % k, (1,), -5, 5),
        amp=V.real('amp%d' % k, -5, 5), **kw)
def derived(M, ck, f, a):
    p = a.get_params(['*'])
    for c in range(len(f)):
        ck.eq(a._gain[c], p['amp'] * (polyval(p['bp_r'], f[c]) + 1j * polyval(p['bp_i'], f[c])), 'the gain follows the parameters')
        ck.eq(a.phsoff[c], polyval(p['phsoff'], f[c]), 'the phase offset follows the parameters')
    ck.eq(list(a.pos), [p['x'], p['y'], p['z']], 'the position follows the parameters')
    ck.eq([p['dly'], p['off']], list(p['phsoff'])[-2:], 'delay and offset are the last two phase coefficients')

def antenna(M, V, ck):
    f = freqs(V, 2); a, b = mkant(M, V, 0, f), mkant(M, V, 1, f)
    names = V.choose('grp', [['x', 'y', 'z', 'dly', 'off', 'bp_r', 'bp_i', 'amp'], ['x', 'y', 'z', 'phsoff', 'bp_r', 'bp_i', 'amp']])
    other = {k: (list(v) if hasattr(v, '__len__') else v) for k, v in b.get_params(['*']).items()}
    before = a.get_params(['*']); full = ANT + ['bm_xwidth', 'bm_ywidth']
    ck.true(set(before) == set(full), 'a wildcard returns every parameter')
    snap = {k: (list(v) if hasattr(v, '__len__') else v) for k, v in before.items()}
    sub = subset(V, names + ['bm_xwidth', 'bm_ywidth'])
    got = a.get_params(list(sub)); ck.true(set(got) == set(sub), 'asking for named parameters returns just those')
    new = {n: V.real('new' + n, .1, 1) if n.startswith('bm') else newant(V, n) for n in sub}
    a.set_params({k: (list(v) if isinstance(v, list) else v) for k, v in new.items()})
    after = a.get_params(['*'])
    for n in full:
        if n in sub: veq(ck, after[n], new[n], 'a parameter that was set reads back')
        elif n == 'phsoff': veq(ck, after[n], [snap[n][0], new.get('dly', snap[n][1]), new.get('off', snap[n][2])], 'other phase coefficients stay unchanged')
        elif n in ('dly', 'off') and 'phsoff' in sub: pass
        else: veq(ck, after[n], snap[n], 'other parameters stay unchanged')
    derived(M, ck, f, a)
    again = b.get_params(['*'])
    for n in full: veq(ck, again[n], other[n], 'another antenna is untouched')
    # what was read earlier restores the earlier state
    a.set_params(snap); back = a.get_params(['*'])
    for n in full: veq(ck, back[n], snap[n], 'setting back what was read restores it')
    derived(M, ck, f, a)

def readcopy(M, V, ck):
    """Values that were read are not changed by later settings, nor do they change the antenna."""
    f = freqs(V, 2); a = mkant(M, V, 0, f)
    which = V.choose('p', ['phsoff', 'bp_r', 'bp_i'])
    p = a.get_params([which]); was = list(p[which])
    d = V.real('d', -5, 5)
    a.set_params({'dly': d})
    ck.eq(list(p[which]), was, 'what was read is not changed by a later setting')
    a.set_params(p)
    ck.eq(list(a.get_params([which])[which]), was, 'setting back what was read restores it')
    derived(M, ck, f, a)
    # values handed in stay the caller's
    new = [V.real('n%d' % k, -5, 5) for k in range(2)]; given = list(new)
    b = mkant(M, V, 1, f)
    for x in (a, b): x.set_params({'phsoff': given})
    a.set_params({'off': V.real('o', -5, 5)})
    ck.eq(list(b.get_params(['phsoff'])['phsoff']), new, 'antennas set from one list stay independent')
    ck.eq(given, new, 'the values handed in stay unchanged')
    derived(M, ck, f, b)

def defaults(M, V, ck):
    """Antennas made without phase terms do not share them."""
    f = freqs(V, 2); a, b = mkant(M, V, 0, f, phsoff=False), mkant(M, V, 1, f, phsoff=False)
    d = V.real('d', -5, 5); a.set_params({'dly': d})
    ck.eq(a.get_params(['dly'])['dly'], d, 'a parameter that was set reads back')
    ck.eq(b.get_params(['dly'])['dly'], 0, 'another antenna is untouched')
    b.update(); ck.eq(list(b.phsoff), [0, 0], 'the phase of another antenna is untouched')
    c = mkant(M, V, 2, f, phsoff=False)
    ck.eq(list(c.phsoff), [0, 0], 'an antenna made later is untouched')
    shared = [V.real('s0', -5, 5), V.real('s1', -5, 5)]; g = V.real('g', -5, 5)
    A = [M.fit.Antenna(0, 0, 0, M.fit.Beam(f), phsoff=shared) for k in range(2)]
    A[0].set_params({'off': g})
    A[1].update(); ck.eq(A[1].get_params(['phsoff'])['phsoff'][0], shared[0], 'antennas made from one list: first coefficient')

def shared_list(M, V, ck):
    f = freqs(V, 2); s0, s1, g = V.real('s0', -5, 5), V.real('s1', -5, 5), V.real('g', -5, 5)
    shared = [s0, s1]
    A = [M.fit.Antenna(0, 0, 0, M.fit.Beam(f), phsoff=shared) for k in range(2)]
    A[0].set_params({'off': g})
    ck.eq(A[1].get_params(['off'])['off'], s1, 'antennas made from one list stay independent')
    ck.eq(A[0].get_params(['off'])['off'], g, 'a parameter that was set reads back')

def array(M, V, ck):
    f = freqs(V, 2); n = 3
    aa = M.fit.AntennaArray((V.angle('lat', -1, 1), V.angle('lon', -1, 1)), [mkant(M, V, k, f) for k in range(n)])
    full = ANT + ['bm_xwidth', 'bm_ywidth']
    before = {str(k): {q: (list(v) if hasattr(v, '__len__') else v) for q, v in aa[k].get_params(['*']).items()} for k in range(n)}
    sel, want = V.choose('sel', [({'*': '*'}, {str(k): full for k in range(n)}), ({'1': ['dly', 'amp'], '2': 'x'}, {'1': ['dly', 'amp'], '2': ['x']}), ({'*': ['bp_r']}, {str(k): ['bp_r'] for k in range(n)}),
        ({'0': '*'}, {'0': full}), ({'cyg': 'jys', '2': ['bm_xwidth']}, {'2': ['bm_xwidth']}), ({'2': ['z', 'nosuch']}, {'2': ['z']})])
    got = aa.get_params(sel)
    ck.true(set(got) == set(want), 'the named antennas')
    for k in got:
        ck.true(set(got[k]) == set(want[k]), 'exactly the named parameters of an antenna')
        for p in got[k]: veq(ck, got[k][p], before[k][p], 'the value of the antenna')
    new = {k: {p: V.real('n%s%s' % (k, p), .1, 1) if p.startswith('bm') else newant(V, p, k) for p in want[k] if p not in ('dly', 'off') or 'phsoff' not in want[k]} for k in want}
    aa.set_params(dict(new, cyg={'jys': V.real('cyg')}))
    for k in range(n):
        a = aa[k].get_params(['*']); nk = new.get(str(k), {}); bk = before[str(k)]
        for p in full:
            if p in nk: veq(ck, a[p], nk[p], 'a parameter that was set reads back')
            elif p in ('dly', 'off', 'phsoff') and any(q in nk for q in ('dly', 'off', 'phsoff')): pass
            else: veq(ck, a[p], bk[p], 'other parameters and antennas stay unchanged')
        derived(M, ck, f, aa[k])
    b = aa.get_baseline(0, 2, 'r')
    ck.eq(list(b), [aa[2].get_params([c])[c] - aa[0].get_params([c])[c] for c in 'xyz'], 'baselines follow the parameters')

def simulated(M, V, ck):
    """Nothing cached for simulation survives a parameter change."""
    f = freqs(V, 2)
    def mk(): return M.fit.AntennaArray((V_lat, V_lon), [M.fit.Antenna(0., 0., 0., M.fit.Beam2DGaussian(f, w[k], w[2 + k]), amp=am[k]) for k in range(2)])
    V_lat, V_lon = 0.5, 0.25
    w = [V.real('w%d' % k, .2, 1) for k in range(4)]; am = [V.real('am%d' % k, .5, 2) for k in range(2)]
    aa = mk(); aa.set_active_pol('xx'); t = V.real('t', 2450000, 2460000); aa.set_jultime(t)
    u = V.unit('u'); x = V.arr([[u[0]], [u[1]], [u[2]]]); top = M.np.dot(aa.eq2top_m, x)
    V.assume(top[2][0] > 0.2)
    j = V.arr([[1., 2.]])
    aa.sim_cache(x, jys=j); v0 = aa.sim(0, 1)
    what = V.choose('what', ['bm_xwidth', 'amp'])
    nv = V.real('nv', .2, 1)
    aa.set_params({'1': {what: nv}})
    if what == 'amp': am[1] = nv
    else: w[1] = nv
    try: v = aa.sim(0, 1)
    except RuntimeError:
        ck.true(True, 'refused'); aa.sim_cache(x, jys=j); v = aa.sim(0, 1)
    bb = mk(); bb.set_active_pol('xx'); bb.set_jultime(t); bb.sim_cache(x, jys=j)
    ck.eq(v, bb.sim(0, 1), 'simulation follows the parameters (%s)' % what, tol=1e-9)

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (fixed, special, catalog, beam_gauss, beam_poly, beam_alm, antenna, readcopy, defaults, shared_list, array, simulated)]
