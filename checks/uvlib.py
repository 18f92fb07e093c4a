"""Helpers for the data-set scenarios: inputs and results by their bits."""
import struct, os
import numpy as np
from vlib import cdrv, snp, sym, mir, ir
from vlib.ir import FB
z3 = sym.z3
ST = mir.ST
PREPARE = mir.prepare
def close(box):
    """Drop the last reference to the data set held in the box."""
    uv = box.pop()
    if hasattr(uv, '_close'): uv._close()
def opened(M, *a, **k): return [M.miriad.UV(*a, **k)]
def spectrum(V, name, n):
    """n complex channels with arbitrary bits (one 32-bit input per part)."""
    b = [(V.bv('%s%dr' % (name, k), 32, False), V.bv('%s%di' % (name, k), 32, False)) for k in range(n)]
    if V.symbolic:
        t = cdrv.tarr_like((n,), 'complex64', name='spectrum')
        for k in range(n): t.set((k,), (FB(b[k][0], 32), FB(b[k][1], 32)))
        return t, [x for p in b for x in p]
    u = np.array([x for p in b for x in p], dtype=np.uint32)
    return u.view(np.complex64), [int(x) for x in u]
def mask(V, name, n): return [V.bool('%s%d' % (name, k)) for k in range(n)]
def masked(V, data, m):
    if V.symbolic:
        o = np.empty(len(m), dtype=object)
        for k, x in enumerate(m): o[k] = x
        return mir.TMa(data, o.view(snp.SArr))
    return np.ma.array(data, mask=np.array(m, dtype=bool))
def dbl(V, name):
    """A finite double with arbitrary bits."""
    b = V.bv(name, 64, False)
    if V.symbolic:
        V.assume(sym.SymB(z3.Extract(62, 52, b) != 0x7ff)); return FB(b, 64), b
    V.assume((b >> 52) & 0x7ff != 0x7ff)
    return struct.unpack('<d', struct.pack('<Q', b))[0], b
def f64arr(V, xs):
    if V.symbolic:
        t = cdrv.tarr_like((len(xs),), 'float64', name='coordinates')
        for k, x in enumerate(xs): t.set((k,), x)
        return t
    return np.array(xs, dtype=np.float64)
def b32(x):
    """The 32 bits of a single-precision number."""
    if isinstance(x, FB): return ir.simp(x.bv)
    if isinstance(x, ir.FX): return ir.simp(x.fb.bv)
    if isinstance(x, sym.SymN): raise sym.EngineLimit('bits of a number')
    return struct.unpack('<I', struct.pack('<f', x))[0]
def b64(x):
    if isinstance(x, FB): return ir.simp(x.bv)
    if isinstance(x, sym.SymN): raise sym.EngineLimit('bits of a number')
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def sbits(a):
    """Bits of a complex64 array: real and imaginary parts in turn."""
    if isinstance(a, mir.TMa): a = a.data
    if isinstance(a, cdrv.TArr):
        out = []
        for k in range(a.shape[0]):
            v = a.get((k,)); v = (v.real, v.imag) if isinstance(v, complex) else (v.re, v.im) if isinstance(v, sym.SymC) else v
            out += [b32(v[0]), b32(v[1])]
        return out
    a = np.ma.getdata(a)
    return [int(x) for x in np.ascontiguousarray(a, dtype=np.complex64).view(np.uint32)]
def sameval(a, b):
    """Equal as doubles, given by bits (zeros of either sign are the same)."""
    if isinstance(a, int) and isinstance(b, int): return a == b or (a | b) & ~(1 << 63) == 0
    a, b = [z3.BitVecVal(x, 64) if isinstance(x, int) else x for x in (a, b)]
    return ir.mk_b(z3.Or(a == b, z3.Extract(62, 0, a | b) == 0))
def flags(d):
    m = d.mask if isinstance(d, mir.TMa) else np.ma.getmaskarray(d)
    return [x if isinstance(x, sym.SymB) else bool(x) for x in m]
def elems(a):
    return [a.get((k,)) if isinstance(a, cdrv.TArr) else a[k] for k in range(len(a))]
def fixed(x): return (x, struct.unpack('<Q', struct.pack('<d', x))[0])
def text(V, name, n):
    """n arbitrary ASCII characters (none of them zero)."""
    b = [V.bv('%s%d' % (name, k), 8, False) for k in range(n)]
    if V.symbolic:
        for x in b: V.assume(sym.SymB(z3.And(z3.UGT(x, 0), z3.ULT(x, 128))))
        return cdrv.SStr(b), b
    for x in b: V.assume(0 < x < 128)
    return bytes(b).decode(), b
def tbits(s): return cdrv.strbytes(s) if isinstance(s, str) else ['not a string']
def i32(V, name): return V.bv(name, 32)
def flt(V, name):
    """A finite single-precision number with arbitrary bits, as a Python number."""
    b = V.bv(name, 32, False)
    if V.symbolic:
        V.assume(sym.SymB(z3.Extract(30, 23, b) != 0xff)); return ir.FX(FB(b, 32)), b
    V.assume((b >> 23) & 0xff != 0xff)
    return struct.unpack('<f', struct.pack('<I', b))[0], b
def cplx(V, name):
    """A complex number with finite single-precision parts."""
    (x, p), (y, q) = flt(V, name + 'r'), flt(V, name + 'i')
    if V.symbolic: return mkc(x, y), (p, q)
    return complex(x, y), (p, q)
def mkc(x, y):
    c = object.__new__(sym.SymC); c.re, c.im = x, y; return c
def fbits(x):
    """Bits of a number in single precision."""
    if isinstance(x, FB) and x.n == 64: raise sym.EngineLimit('bits of a widened number')
    return b32(x)
def cparts(z): return (z.re, z.im) if isinstance(z, sym.SymC) else z if isinstance(z, tuple) else (z.real, z.imag)
def stored(M, V, name):
    """Bytes of a stored file."""
    if V.symbolic:
        f = M._miriad._vm.fs.files.get(name)
        if f is None: return None
        return [sbyte(f.sym[k]) if k in f.sym else x for k, x in enumerate(f.data)]
    if not os.path.exists(name): return None
    return list(open(name, 'rb').read())
def sbyte(q):
    v, k, n = q
    if isinstance(v, FB): v = v.bv
    if ir.isbv(v): return ir.simp(z3.Extract(8*k + 7, 8*k, v))
    raise sym.EngineLimit('stored bytes of a number')
def item(M, V, ds, name):
    """Bytes of a header item: its own file, or its entry in the header file."""
    b = stored(M, V, ds + '/' + name)
    if b is not None: return b
    h = stored(M, V, ds + '/header'); o = 0
    while o + 16 <= len(h):
        nm = bytes(x if isinstance(x, int) else 63 for x in h[o:o+15]).split(b'\0')[0].decode(); n = h[o+15]
        if nm == name: return h[o+16:o+16+n]
        o += 16 + (n + 15) // 16 * 16
    return None
def big(bits, n):
    """Big-endian bytes of a number given by its bits."""
    if isinstance(bits, int): return list((bits & ((1 << 8*n) - 1)).to_bytes(n, 'big'))
    return [ir.simp(z3.Extract(8*k + 7, 8*k, bits)) for k in reversed(range(n))]
