from vlib.harness import Scenario
from checks.common import *
BOUNDS = '2 antennas, 2 or 3 channels, passband polynomials of 1 to 3 coefficients, any amplitude, flux, spectral index and frequencies 0.05 to 0.5 GHz'
OUTSIDE = 'the value of a real power beyond pow(x,0)=1, pow(1,p)=1 and positivity'
EXPLANATION = 'Antenna gains, passbands and source spectra executed on symbolic polynomials and frequencies.'

def gain(M, V, ck):
    mod = V.choose('mod', ['amp', 'fit']); m = getattr(M, mod)
    n, k = V.choose('nbp', [(1, 1), (3, 2), (2, 3)])
    f = freqs(V, 3); br, bi, amp = V.array('br', (n,), -10, 10), V.array('bi', (k,), -10, 10), V.real('amp', -10, 10)
    a = m.Antenna(V.real('x'), V.real('y'), V.real('z'), m.Beam(f), bp_r=br, bp_i=bi, amp=amp)
    g = a.passband(); gc = a.passband(conj=True)
    ck.shape(g, (3,), 'one gain per channel')
    for c in range(3):
        want = amp * (polyval(br, f[c]) + 1j * polyval(bi, f[c]))
        ck.eq(g[c], want, 'amplitude times the passband polynomial')
        ck.eq(gc[c], want.conjugate(), 'conjugated gain')
    # model changes take effect on update
    a.amp = V.real('amp2', -10, 10); a.update()
    for c in range(3): ck.eq(a.passband()[c], a.amp * (polyval(br, f[c]) + 1j * polyval(bi, f[c])), 'gain follows a changed amplitude')

def baseline(M, V, ck):
    mod = V.choose('mod', ['amp', 'fit']); m = getattr(M, mod)
    f = freqs(V, 2); ants = []; G = []
    for k in range(2):
        br, bi, amp = V.array('br%d' % k, (2,), -10, 10), V.array('bi%d' % k, (1,), -10, 10), V.real('amp%d' % k, -10, 10)
        ants.append(m.Antenna(V.real('x%d' % k), V.real('y%d' % k), V.real('z%d' % k), m.Beam(f), bp_r=br, bp_i=bi, amp=amp))
        G.append([amp * (polyval(br, f[c]) + 1j * polyval(bi, f[c])) for c in range(2)])
    aa = m.AntennaArray((V.angle('lat', -1, 1), V.angle('lon', -1, 1)), ants)
    p01, p10 = aa.passband(0, 1), aa.passband(1, 0)
    for c in range(2):
        ck.eq(p01[c], G[1][c] * G[0][c].conjugate(), "second antenna's gain times the conjugate of the first's")
        ck.eq(p10[c], p01[c].conjugate(), 'swapping antennas conjugates the passband')
        for k in range(2):
            q = aa.passband(k, k)[c]
            ck.eq(q.imag, 0, 'an autocorrelation passband is real'); ck.ge(q.real, 0, 'an autocorrelation passband is not negative')

def flux(M, V, ck):
    mod = V.choose('mod', ['amp', 'fit', 'special']); m = M.fit if mod == 'special' else getattr(M, mod)
    f = freqs(V, 2); j, mf = V.real('jys', 0, 10000), V.real('mfreq', 0.05, 0.5)
    idx = V.choose('idx', ['sym', -2, -1, 0, 1, 2]); idx = V.real('index', -3, 3) if idx == 'sym' else idx
    if mod == 'special': s = m.RadioSpecial('Sun', jys=j, index=idx, mfreq=mf)
    else: s = m.RadioFixedBody(V.real('ra', 0, 6), V.real('dec', -1, 1), jys=j, index=idx, mfreq=mf)
    s.update_jys(f)
    got = s.get_jys(); ck.shape(got, (2,), 'one flux per channel')
    for c in range(2): ck.eq(got[c], j * (f[c] / mf)**idx, 'reference flux times the frequency ratio to the spectral index')
    s.update_jys(V.arr([f[0], mf])); got = s.get_jys()
    ck.eq(got[1], j, 'the reference flux at the reference frequency')
    ck.eq(got[0], j * (f[0] / mf)**idx, 'the flux follows new frequencies')

def computed(M, V, ck):
    """compute() evaluates the flux at the array's active frequencies; the catalogue lists the fluxes."""
    m = M.fit; f = freqs(V, 3)
    aa = m.AntennaArray((V.angle('lat', -1, 1), V.angle('lon', -1, 1)), [m.Antenna(0, 0, 0, m.Beam(f))])
    aa.set_jultime(V.real('t', 2450000, 2460000))
    S = [m.RadioFixedBody(V.real('ra%d' % k, 0.1, 6), V.real('dec%d' % k, -1, 1), name='s%d' % k, jys=V.real('j%d' % k, 0, 100), index=(-1, 2)[k], mfreq=V.real('mf%d' % k, .1, .3)) for k in range(2)]
    cat = m.SrcCatalog(S); cat.compute(aa)
    for who in (None, ['s1', 's0']):
        J = cat.get_jys(srcs=who)
        for r, n in enumerate(who or ['s0', 's1']):
            s = cat[n]
            for c in range(3): ck.eq(J[r][c], s._jys * (f[c] / s.mfreq)**s.index, 'catalogue flux of each source at each active frequency')
    aa.select_chans([2, 0]); cat.compute(aa); J = cat.get_jys()
    for r in range(2):
        for q, c in enumerate((2, 0)): ck.eq(J[r][q], S[r]._jys * (f[c] / S[r].mfreq)**S[r].index, 'fluxes follow the channel selection')

def defaults(M, V, ck):
    """A source given only a flux has the documented reference frequency and spectral index; an antenna given no passband has unit gain."""
    mod = V.choose('mod', ['amp', 'fit']); m = getattr(M, mod); f = freqs(V, 2); j = V.real('jys', 0, 10000)
    for s in (m.RadioFixedBody(V.real('ra', 0, 6), V.real('dec', -1, 1), jys=j), m.RadioSpecial('Sun', jys=j)):
        s.update_jys(f)
        for c in range(2): ck.eq(s.get_jys()[c] * f[c], j * .15, 'the default spectrum is the flux at 0.15 GHz with index -1')
    a = m.Antenna(V.real('x'), V.real('y'), V.real('z'), m.Beam(f)); g = a.passband(); ck.shape(g, (2,), 'one gain per channel')
    for c in range(2): ck.eq(g[c], 1, 'the default gain is one')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (gain, baseline, flux, computed, defaults)]
