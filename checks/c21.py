from vlib.harness import Scenario
from checks.common import *
BOUNDS = '3 sources with any positions, fluxes and reference frequencies and spectral indices -1, 0, 1; any cutoff and frequency; every catalogue module of aipy._src with 3 such sources in place of its data file; the built-in miscellaneous catalogue with any cutoff'
OUTSIDE = 'the contents of the catalogue data files; the logarithmic Helmboldt spectra; fractional spectral indices with a symbolic frequency'
EXPLANATION = 'Catalogue containers and the selection functions of every catalogue module executed on symbolic sources; comparisons of fluxes with the cutoff fork.'
import copy as _copy
NAMES = ('b', 'a', 'c')
IDX = (-1, 0, 1)

def mksrc(M, V, mod, n, k, tag=''):
    m = getattr(M, mod)
    kw = {} if mod == 'phs' else dict(jys=V.real(tag + 'j' + n, 0, 1e4), index=IDX[k])
    return m.RadioFixedBody(V.real(tag + 'ra' + n, .1, 6), V.real(tag + 'dec' + n, -1, 1), name=n, mfreq=V.real(tag + 'mf' + n, .05, .5), **kw)

def adding(M, V, ck):
    mod = V.choose('mod', ['phs', 'amp', 'fit'])
    s = [mksrc(M, V, mod, n, k) for k, n in enumerate(NAMES)]; m = getattr(M, mod)
    cats = [m.SrcCatalog(*s), m.SrcCatalog(s), m.SrcCatalog(s[0]), m.SrcCatalog(), m.SrcCatalog(tuple(s[:2]))]
    cats[2].add_srcs(s[1]); cats[2].add_srcs(s[2]); cats[3].add_srcs(s[:1]); cats[3].add_srcs(s[1], s[2]); cats[4].add_srcs([s[2]])
    for c in cats:
        ck.true(len(c) == 3 and sorted(c.keys()) == ['a', 'b', 'c'], 'every source is stored under its name, once')
        for x in s: ck.true(c[x.src_name] is x, 'a source is retrievable under its name')
    new = mksrc(M, V, mod, 'a', 1, 'n'); c = cats[0]; c.add_srcs(new)
    ck.true(len(c) == 3 and c['a'] is new and c['b'] is s[0] and c['c'] is s[2], 'a later source of the same name replaces the earlier one, and only that one')
    c2 = m.SrcCatalog([s[1], s[0], new]); ck.true(len(c2) == 2 and c2['a'] is new, 'the last of several of one name stays')
    e = m.SrcCatalog([]); ck.true(len(e) == 0 and list(e.get_srcs() or []) == [], 'an empty catalogue')

def order(M, V, ck):
    mod = V.choose('mod', ['phs', 'amp', 'fit']); m = getattr(M, mod)
    s = [mksrc(M, V, mod, n, k) for k, n in enumerate(NAMES)]; by = {x.src_name: x for x in s}
    c = m.SrcCatalog(s)
    al = c.get_srcs(); ck.true([x.src_name for x in al] == list(c.keys()) and all(by[x.src_name] is x for x in al), 'asking for all sources returns all, in catalogue order')
    req = V.choose('req', [('a', 'b'), ('b', 'a'), ('c',), ('c', 'a', 'b'), ('a', 'a')])
    for got in (c.get_srcs(*req), c.get_srcs(list(req)), c.get_srcs(tuple(req))):
        ck.true(isinstance(got, list) and len(got) == len(req) and all(g is by[r] for g, r in zip(got, req)), 'named sources in the requested order')
    for none in ([], ()): ck.true(list(c.get_srcs(none)) == [], 'an empty request returns nothing')
    ck.raises(KeyError, lambda: c.get_srcs('zz'), 'a name that is not there')

def arrays(M, V, ck):
    mod = V.choose('mod', ['phs', 'amp', 'fit']); m = getattr(M, mod)
    s = [mksrc(M, V, mod, n, k) for k, n in enumerate(NAMES)]; by = {x.src_name: x for x in s}
    c = m.SrcCatalog(s); f = freqs(V, 2)
    aa = m.AntennaArray((V.angle('lat', -1.5, 1.5), V.angle('lon', -3, 3)), [m.Antenna(0, 0, 0, m.Beam(f))]); aa.set_jultime(V.real('t', 2450000, 2460000))
    c.compute(aa)
    req = V.choose('req', [None, ('a', 'b'), ('c', 'b', 'a'), ('b',)])
    names = list(c.keys()) if req is None else list(req)
    kw = {} if req is None else {'srcs': list(req)}
    for sysn in ('eq', 'top'):
        for n in (2, 3):
            g = c.get_crds(sysn, ncrd=n, **kw); ck.shape(g, (n, len(names)), 'coordinates by source')
            for k, nm in enumerate(names):
                x = by[nm].get_crds(sysn, ncrd=n)
                for q in range(n): ck.eq(g[q][k], x[q], 'coordinates in the requested order')
    g = c.get('mfreq', **kw); ck.shape(g, (len(names),), 'attribute by source')
    for k, nm in enumerate(names): ck.eq(g[k], by[nm].mfreq, 'attributes in the requested order')
    g = c.get('ionref', **kw); ck.shape(g, (2, len(names)), 'vector attribute by source')
    if mod == 'phs': return
    ck.need(c, 'get_jys')
    g = c.get_jys(**kw); ck.shape(g, (len(names), 2), 'fluxes by source and channel')
    for k, nm in enumerate(names):
        for q in range(2): ck.eq(g[k][q], by[nm]._jys * (f[q] / by[nm].mfreq)**by[nm].index, 'fluxes in the requested order')
    c.update_jys(V.arr([f[0]])); g = c.get_jys(**kw); ck.shape(g, (len(names), 1), 'fluxes at the updated frequencies')
    for k, nm in enumerate(names): ck.eq(g[k][0], by[nm]._jys * (f[0] / by[nm].mfreq)**by[nm].index, 'fluxes at the updated frequencies')

MODS = ['culgoora', 'four_c', 'gbsix', 'helm', 'misc', 'mrt', 'nvss', 'paper', 'parkes', 'seven_c', 'six_c', 'three_c', 'three_cr', 'txs', 'vlss', 'wenss']
def with_cat(M, V, name, fn):
    """The catalogue module with three sources in place of what its file holds."""
    m = getattr(M, '_src.' + name)
    g = [k for k in vars(m) if k.startswith('_') and k.endswith('cat')]
    if len(g) != 1: return None
    old = getattr(m, g[0])
    cat = M.fit.SrcCatalog([mksrc(M, V, 'fit', n, k) for k, n in enumerate(NAMES)])
    setattr(m, g[0], cat)
    try: fn(m, cat)
    finally: setattr(m, g[0], old)

def flux(s, fq): return s._jys * (fq / s.mfreq)**s.index
def selection(M, V, ck, mods):
    name = V.choose('catalogue', mods)
    mode = V.choose('mode', ['cut', 'names'])
    def body(m, cat):
        by = dict(cat)
        if mode == 'cut':
            cut, fq = V.real('cut', 0, 1e4), V.real('fq', .05, .5)
            for x in by.values():
                d = flux(x, fq) - cut
                if not V.symbolic: V.assume(abs(d) > 1e-6)
            got = m.get_srcs(cutoff=(cut, fq)); names = [x.src_name for x in got]
            ck.true(names == [n for n in cat.keys() if n in names], 'selected sources once each, in catalogue order')
            for n, x in by.items():
                if n in names: ck.true(flux(x, fq) > cut, 'a selected source is brighter than the cutoff'); ck.true(got[names.index(n)] is x, 'the source itself')
                else: ck.true(flux(x, fq) <= cut, 'a source brighter than the cutoff is selected')
        else:
            ck.true([x.src_name for x in m.get_srcs()] == list(cat.keys()), 'no request returns all sources')
            for req in (['a', 'b'], ['c', 'zz', 'a'], ['zz'], []):
                ck.true([x.src_name for x in m.get_srcs(srcs=req)] == [n for n in req if n in by], 'known names in the requested order, unknown names skipped')
                ck.true(all(by[x.src_name] is x for x in m.get_srcs(srcs=req)), 'the sources themselves')
            # names win over a cutoff
            ck.true([x.src_name for x in m.get_srcs(srcs=['b'], cutoff=(1e30, .15))] == ['b'], 'named sources are returned whatever their flux')
    with_cat(M, V, name, body)
def select_1(M, V, ck): selection(M, V, ck, MODS[:5])
def select_2(M, V, ck): selection(M, V, ck, MODS[5:11])
def select_3(M, V, ck): selection(M, V, ck, MODS[11:])

def builtin(M, V, ck):
    """The built-in sources with their published fluxes."""
    m = getattr(M, '_src.misc'); ck.need(m, 'src_data')
    fq = V.choose('fq', [.15, .05, .4]); lo, hi = V.choose('window', [(0., 60.), (60., 3000.), (3000., 50000.)]); cut = V.real('cut', lo, hi)
    ex = {n: d[2] * (fq / d[3])**d[4] for n, d in m.src_data.items()}
    if not V.symbolic: V.assume(all(abs(x - cut) > 1e-6 for x in ex.values()))
    got = M.src.get_catalog(cutoff=(cut, fq), catalogs=['misc'])
    ck.true(all(s.src_name == n for n, s in got.items()), 'stored under their names')
    for n, x in ex.items():
        if n in got: ck.true(x > cut - 1e-6, 'a selected source is brighter than the cutoff')
        else: ck.true(x <= cut + 1e-6, 'a source brighter than the cutoff is selected')

def front(M, V, ck):
    """The front end: names across catalogues, unknown names, ready-made sources."""
    made = M.fit.RadioFixedBody(V.real('ra', .1, 6), V.real('dec', -1, 1), name='mine', jys=V.real('j', 0, 9))
    made2 = M.fit.RadioFixedBody(V.real('ra2', .1, 6), V.real('dec2', -1, 1), name='cyg', jys=V.real('j2', 0, 9))
    c = M.src.get_catalog(srcs=['cyg', 'nonesuch', made], catalogs=['misc'])
    ck.true(sorted(c.keys()) == ['cyg', 'mine'] and c['mine'] is made, 'names, without unknown ones, and ready-made sources')
    c = M.src.get_catalog(srcs=['Sun', made2], catalogs=['misc', 'no_such_catalogue'])
    ck.true(sorted(c.keys()) == ['Sun', 'cyg'] and c['cyg'] is made2, 'a ready-made source is kept')
    c = M.src.get_catalog(srcs=['cyg', made2], catalogs=['misc']); ck.true(len(c) == 1 and c['cyg'] is made2, 'a ready-made source replaces the catalogued one of its name')
    c = M.src.get_catalog(srcs=['J0000+554', 'crab', 'cyg'], catalogs=['misc']); ck.true(sorted(c.keys()) == ['crab', 'cyg'], 'only the requested catalogues are searched')
    ck.true(len(M.src.get_catalog(srcs=[], catalogs=['misc'])) == 0, 'asking for nothing returns nothing')
    m = getattr(M, '_src.misc'); ck.need(m, 'src_data')
    c = M.src.get_catalog(catalogs=['misc']); ck.true(sorted(c.keys()) == sorted(m.src_data), 'no request returns the whole catalogue')
    a = M.src.get_catalog(srcs=['cas', 'cyg'], catalogs=['misc'])
    for n in ('cas', 'cyg'):
        d = m.src_data[n]; ck.eq([a[n]._jys, a[n].mfreq, a[n].index], [float(x) for x in d[2:5]], 'catalogued flux, reference frequency and index')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (adding, order, arrays, select_1, select_2, select_3, builtin, front)]
