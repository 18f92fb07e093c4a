"""Shared by the sky map checks: contract of the compiled add2array, healpy stub, directions."""
import types
from checks.common import *
from vlib import hstub, snp
def utils():
    m = types.ModuleType('aipy.utils')
    def add2array(a, ind, data):
        n = np.shape(ind)[0]
        if len(data) != n: raise ValueError('dimensions of indices and data do not match')
        for k in range(n):
            ix = tuple(int(i) for i in np.asarray(ind)[k])
            for i, s in zip(ix, a.shape):
                if not -s <= i < s: raise IndexError('index out of range')
            a[ix] = (a[ix] or data[k]) if a.dtype == bool else a[ix] + data[k]
    m.add2array = add2array
    return m
utils._fresh = True
HS = dict(STUBS, healpy=hstub.module)
HS['aipy.utils'] = utils
def hpy(M):
    import healpy
    return healpy
def F(x): return [float(v) for v in np.asarray(x).flat]
def dirs(M, nside, scheme, pxs, kind):
    """Concrete coordinates lying in the given pixels."""
    h = hpy(M); nest = scheme == 'NEST'
    if kind == 'px': return np.array(pxs)
    if kind == 'ang': return tuple(np.array(F(c)) for c in h.pix2ang(nside, np.array(pxs), nest=nest))
    return tuple(np.array(F(c)) for c in h.pix2vec(nside, np.array(pxs), nest=nest))
def same_sky(M, ck, hpm, nside, ring, msg):
    """ring[k] is the expected value in the direction of RING pixel k; read through directions."""
    h = hpy(M)
    th, ph = [np.array(F(c)) for c in h.pix2ang(nside, np.arange(12*nside**2))]
    ck.eq(list(hpm[th, ph]), list(ring), msg)
