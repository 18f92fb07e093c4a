import numpy as np
from vlib import cdrv, snp, sym
from checks.common import *
def _stub():
    """aipy._deconv over the LLVM IR of deconv.cpp; object arrays (symbolic numbers) take the type their contents share."""
    mk = cdrv.cmodule('_deconv')
    def make():
        m = mk(); real = m.clean
        def clean(*a, **k):
            o = [x for x in list(a[:3]) + [k[n] for n in ('res', 'ker', 'mdl') if n in k] if isinstance(x, np.ndarray) and x.dtype == object]
            dt = np.dtype(complex if any(isinstance(v, (sym.SymC, complex)) for x in o for v in x.flat) else float)
            def f(x):
                if any(x is y for y in o):
                    t = cdrv.from_sarr(x, dt); back.append((x, t)); return t
                return x
            back = []; a = [f(x) for x in a]; k = {n: f(x) for n, x in k.items()}
            r = real(*a, **k)
            for x, t in back: cdrv.writeback(x, t)
            return r
        m.clean = clean
        return m
    make._fresh = True
    return make
ST = dict(FPI); ST["aipy._deconv"] = _stub()
def conv(x, k):
    """Periodic convolution by its definition; x, k: dict index -> value."""
    s = max(x); s = tuple(a + 1 for a in s); r = {}
    for i in x:
        t = 0
        for j in x: t = t + x[j] * k[tuple((a - b) % n for a, b, n in zip(i, j, s))]
        r[i] = t
    return r
def abs2(v):
    if isinstance(v, sym.SymC): return v.re*v.re + v.im*v.im
    if isinstance(v, complex): return v.real*v.real + v.imag*v.imag
    return v*v
def cval(z):
    if isinstance(z, np.complexfloating): return complex(z)
    if isinstance(z, np.floating): return float(z)
    return z
def vals(V, a): return {k: cval(V.elem(a, k)) for k in np.ndindex(*a.shape)}
def avals(a): a = np.asarray(a); return {k: cval(a[k]) for k in np.ndindex(*a.shape)}
