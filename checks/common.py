"""Helpers shared by the scenarios."""
import numpy as np
from vlib import estub
STUBS = dict(estub.STUBS)
from vlib import snp as _snp
FPI = dict(STUBS, numpy=_snp.numpy_fpi)

def mv(a, v): return [sum(a[i][k] * v[k] for k in range(3)) for i in range(3)]
def polyval(p, x):
    y = 0
    for c in p: y = y * x + c
    return y
def cis(M, a):
    """exp(i a)"""
    return M.np.cos(a) + 1j * M.np.sin(a)
def freqs(V, n, lo=0.05, hi=0.5): return V.array('f', (n,), lo, hi)
def pos(V, n, names='xyz', r=500): return [[V.real('%s%d' % (c, k), -r, r) for c in names] for k in range(n)]
def phs_array(M, V, nant=2, nf=2, phsoff=2, mod='phs', time=True, chans=None, lat=True):
    m = getattr(M, mod)
    f = freqs(V, nf)
    P = pos(V, nant)
    offs = [[V.real('o%d_%d' % (k, c), -100, 100) for c in range(phsoff)] for k in range(nant)]
    ants = [m.Antenna(P[k][0], P[k][1], P[k][2], m.Beam(f), phsoff=offs[k]) for k in range(nant)]
    la = V.angle('lat', -1.5, 1.5); lo = V.angle('long', -3, 3)
    aa = m.AntennaArray((la, lo), ants)
    if time:
        t = V.real('t', 2450000, 2460000)
        aa.set_jultime(t)
    return aa, f, P, offs
def source(M, V, name='s', mod='phs', **kw):
    m = getattr(M, mod)
    return m.RadioFixedBody(V.real(name + '.ra', 0.01, 6.2), V.real(name + '.dec', -1.5, 1.5), name=name, **kw)
