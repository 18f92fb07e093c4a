"""healpy on the symbolic side: the real library for everything that depends on
concrete pixels and directions; spherical-harmonic synthesis of symbolic
coefficients through the exact matrix the real library applies."""
import types
from fractions import Fraction
import numpy as np
from . import sym, snp
from .sym import SymN, SymC, is_sym, EngineLimit

_cache = {}
def _matrix(nside, lmax, mmax, kw):
    import healpy
    key = (nside, lmax, mmax, repr(sorted(kw.items())))
    if key not in _cache:
        n = healpy.Alm.getsize(lmax, mmax)
        cols = []
        for k in range(n):
            for v in (1.0, 1j):
                a = np.zeros(n, dtype=np.complex128); a[k] = v
                cols.append(healpy.alm2map(a, nside, lmax=lmax, mmax=mmax, **kw))
        _cache[key] = cols
    return _cache[key]

def module():
    import healpy
    m = types.ModuleType('healpy')
    def alm2map(alms, nside, lmax=None, mmax=None, **kw):
        a = np.asarray(alms)
        if not any(is_sym(x) for x in a.flat): return healpy.alm2map(a.astype(np.complex128), nside, lmax=lmax, mmax=mmax, **kw)
        cols = _matrix(nside, lmax, mmax, kw)
        out = []
        for px in range(len(cols[0])):
            s = 0
            for k in range(a.size):
                v = a[k]; v = SymC.of(v)
                for part, c in ((v.re, cols[2*k][px]), (v.im, cols[2*k+1][px])):
                    if c != 0: s = s + part * Fraction(float(c))
            out.append(s)
        return snp.mk(out)
    def conc(a):
        if is_sym(a):
            if isinstance(a, SymN) and a.isconst(): v = a.cval(); return int(v) if a.isint else float(v)
            raise EngineLimit('healpy on symbolic arguments')
        if isinstance(a, np.ndarray) and a.dtype == object:
            v = [conc(x) for x in a.flat]
            return np.array([x for x in v]).reshape(a.shape) if v else np.zeros(a.shape)
        if isinstance(a, (list, tuple)): return type(a)(conc(x) for x in a)
        return np.asarray(a) if isinstance(a, np.ndarray) else a
    def __getattr__(n):
        f = getattr(healpy, n)
        if isinstance(f, type) or not callable(f): return f
        return lambda *a, **k: f(*[conc(x) for x in a], **{q: conc(v) for q, v in k.items()})
    m.alm2map = alm2map
    m.__getattr__ = __getattr__
    return m
module._fresh = True
