"""The compiled data-set module (_miriad) over its LLVM IR: an in-memory file system, the UV type as a Python class,
and the numpy operations the Python layer applies to records (masked typed arrays)."""
import types, os, errno as ERR, re
import numpy as np
import z3
from . import ir, cdrv, sym, snp
from .ir import concretize, FB, FX, Raw
from .sym import SymN, SymC, SymB, EngineLimit, PathAbort
from .cdrv import TArr

M32 = (1 << 32) - 1
def neg(n): return (1 << n) - 1
class FObj:
    """A file: bytes plus references to symbolic values."""
    def __init__(self): self.data, self.sym = bytearray(), {}
    def read(self, pos, n): return bytes(self.data[pos:pos+n]), {i: self.sym[pos+i] for i in range(n) if pos + i in self.sym} if self.sym else {}
    def trunc(self): self.data = bytearray(); self.sym = {}
def norm(p):
    p = os.path.normpath(p); return p
class FS:
    def __init__(self):
        self.files, self.dirs, self.fds, self.next = {}, {'.', '/'}, {}, 10
        self.dirp = {}; self.env = {}; self.log = []
    def children(self, d):
        d = norm(d); pre = '' if d == '.' else d + '/'
        return sorted({p[len(pre):].split('/')[0] for p in list(self.files) + list(self.dirs) if p.startswith(pre) and p not in ('.', '/', d)})
def fs(vm):
    if not hasattr(vm, 'fs'): vm.fs = FS()
    return vm.fs
def seterrno(vm, e):
    if not hasattr(vm, 'errno_p'): vm.errno_p = vm.alloc(4, 'errno', bytearray(4)).base
    vm.sti(vm.errno_p, e, 4)
def h_errno(vm):
    if not hasattr(vm, 'errno_p'): seterrno(vm, 0)
    return vm.errno_p
def fail(vm, e, n=32): seterrno(vm, e); return neg(n)
def h_open(vm, path, flags, mode=0):
    F = fs(vm); p = norm(vm.cstr(path).decode('utf-8', 'surrogateescape')); flags = concretize(flags)
    if p in F.dirs: return fail(vm, ERR.EISDIR) if flags & 3 else mkfd(F, None)
    if p not in F.files:
        if not flags & 0o100: return fail(vm, ERR.ENOENT)
        if norm(os.path.dirname(p) or '.') not in F.dirs: return fail(vm, ERR.ENOENT)
        F.files[p] = FObj()
    elif flags & 0o1000: F.files[p].trunc()
    return mkfd(F, F.files[p], flags)
def mkfd(F, f, flags=0):
    F.next += 1; F.fds[F.next] = [f, 0, flags]; return F.next
def h_close(vm, fd):
    F = fs(vm); fd = concretize(fd)
    if fd not in F.fds: return fail(vm, ERR.EBADF)
    del F.fds[fd]; return 0
def h_lseek(vm, fd, off, wh):
    F = fs(vm); fd, off, wh = concretize(fd), ir.sgn(concretize(off), 64), concretize(wh)
    if fd not in F.fds: return fail(vm, ERR.EBADF, 64)
    e = F.fds[fd]; pos = off + (0 if wh == 0 else e[1] if wh == 1 else len(e[0].data) if e[0] else 0)
    if pos < 0: return fail(vm, ERR.EINVAL, 64)
    e[1] = pos; return pos
def h_read(vm, fd, buf, n):
    F = fs(vm); fd, n = concretize(fd), concretize(n)
    if fd not in F.fds: return fail(vm, ERR.EBADF, 64)
    e = F.fds[fd]
    if e[0] is None: return fail(vm, ERR.EISDIR, 64)
    b, s = e[0].read(e[1], n)
    if b:
        o = vm.find(buf, n, 'read() into'); vm.write_bytes(buf, b)
        off = buf - o.base
        if s:
            if o.sym is None: o.sym = {}
            for i, q in s.items(): o.sym[off + i] = q
    e[1] += len(b); return len(b)
def h_write(vm, fd, buf, n):
    F = fs(vm); fd, n = concretize(fd), concretize(n)
    if fd not in F.fds or not F.fds[fd][2] & 3: return fail(vm, ERR.EBADF, 64)
    e = F.fds[fd]; f, pos = e[0], e[1]
    if n:
        o = vm.find(buf, n, 'write() from'); off = buf - o.base
        if len(f.data) < pos: f.data.extend(bytes(pos - len(f.data)))
        f.data[pos:pos+n] = o.data[off:off+n]
        if f.sym:
            for i in range(pos, pos + n): f.sym.pop(i, None)
        if o.sym:
            for i in range(n):
                q = o.sym.get(off + i)
                if q is not None: f.sym[pos + i] = q
    e[1] = pos + n; return n
def pstr(vm, p): return norm(vm.cstr(p).decode('utf-8', 'surrogateescape'))
def h_mkdir(vm, p, mode):
    F = fs(vm); p = pstr(vm, p)
    if p in F.dirs or p in F.files: return fail(vm, ERR.EEXIST)
    if norm(os.path.dirname(p) or '.') not in F.dirs: return fail(vm, ERR.ENOENT)
    F.dirs.add(p); return 0
def h_rmdir(vm, p):
    F = fs(vm); p = pstr(vm, p)
    if p not in F.dirs: return fail(vm, ERR.ENOENT)
    if F.children(p): return fail(vm, ERR.ENOTEMPTY)
    F.dirs.discard(p); return 0
def h_unlink(vm, p):
    F = fs(vm); p = pstr(vm, p)
    if p not in F.files: return fail(vm, ERR.ENOENT)
    del F.files[p]; return 0
def h_stat(vm, p, buf):
    F = fs(vm); p = pstr(vm, p)
    if p not in F.files and p not in F.dirs: return fail(vm, ERR.ENOENT)
    vm.fill(buf, 0, 144); vm.sti(buf + 24, 0o40755 if p in F.dirs else 0o100644, 4); vm.sti(buf + 48, len(F.files[p].data) if p in F.files else 4096, 8)
    return 0
def h_opendir(vm, p):
    F = fs(vm); p = pstr(vm, p)
    if p not in F.dirs: seterrno(vm, ERR.ENOENT); return 0
    a = vm.alloc(320, 'directory stream', bytearray(320)).base; F.dirp[a] = ['.', '..'] + F.children(p); return a
def h_readdir(vm, d):
    F = fs(vm)
    if d not in F.dirp:
        sym.CUR.prove(False, 'memory: directory stream that is not open (%s)' % vm.fname()); raise PathAbort()
    l = F.dirp[d]
    if not l: return 0
    n = l.pop(0).encode(); vm.fill(d, 0, 280); vm.write_bytes(d + 19, n + b'\0'); return d
def h_closedir(vm, d): fs(vm).dirp.pop(d, None); return 0
def h_ctype(vm):
    if not hasattr(vm, 'ctype_p'):
        t = vm.alloc(768, 'ctype table', bytearray(768)).base
        for c in range(256):
            ch = chr(c) if c < 128 else ''
            v = (0x100 if ch.isupper() else 0) | (0x200 if ch.islower() else 0) | (0x400 if ch.isalpha() else 0) | (0x800 if ch.isdigit() else 0) | (0x2000 if ch and ch in ' \t\n\v\f\r' else 0) | (0x4000 if 32 <= c < 127 else 0)
            vm.sti(t + 256 + 2*c, v, 2)
        p = vm.alloc(8, 'ctype pointer', bytearray(8)).base; vm.sti(p, t + 256, 8); vm.ctype_p = p
    return vm.ctype_p
def h_toupper(vm):
    if not hasattr(vm, 'up_p'):
        t = vm.alloc(1536, 'toupper table', bytearray(1536)).base
        for c in range(-128, 256): vm.sti(t + 512 + 4*c, ord(chr(c).upper()) if 97 <= c < 123 else c & M32, 4)
        p = vm.alloc(8, 'toupper pointer', bytearray(8)).base; vm.sti(p, t + 512, 8); vm.up_p = p
    return vm.up_p
def h_strerror(vm, n):
    n = ir.sgn(concretize(n), 32)
    try: s = os.strerror(n)
    except (ValueError, OverflowError): s = 'Unknown error %d' % n
    return vm.newstr(s.encode())
def cxx_create(vm, this, pcap, old):
    n = concretize(vm.ldi(pcap, 8)); old = concretize(old)
    if n > old and n < 2*old: n = 2*old; vm.sti(pcap, n, 8)
    return ir.BUILTIN['malloc'](vm, n + 1)
def h_sscanf(vm, src, fmt, *outs):
    s, f, outs = vm.cstr(src), vm.cstr(fmt).decode(), list(outs); i = n = j = 0
    while j < len(f):
        c = f[j]; j += 1
        if c.isspace():
            while i < len(s) and s[i:i+1].isspace(): i += 1
            continue
        if c != '%':
            if s[i:i+1] != c.encode(): return n
            i += 1; continue
        w = ''
        while f[j].isdigit(): w += f[j]; j += 1
        while f[j] in 'lh': j += 1
        c = f[j]; j += 1
        if c == 'c':
            k = int(w or 1)
            if i + k > len(s): return n or M32
            vm.write_bytes(outs.pop(0), s[i:i+k]); i += k
        else:
            while i < len(s) and s[i:i+1].isspace(): i += 1
            m = re.match({'s': rb'\S+', 'd': rb'[+-]?\d+'}[c] if c in 'sd' else (_ for _ in ()).throw(EngineLimit('sscanf %' + c)), s[i:i+int(w)] if w else s[i:])
            if not m: return n or (M32 if i >= len(s) else 0)
            t = m.group(0); i += len(t)
            if c == 's': vm.write_bytes(outs.pop(0), t + b'\0')
            else: vm.sti(outs.pop(0), int(t) & M32, 4)
        n += 1
    return n
HANDLERS = {
    'sscanf': h_sscanf, '__isoc23_sscanf': h_sscanf, '__isoc99_sscanf': h_sscanf,
    'open64': h_open, 'open': h_open, 'close': h_close, 'lseek64': h_lseek, 'lseek': h_lseek, 'read': h_read, 'write': h_write, 'mkdir': h_mkdir, 'rmdir': h_rmdir,
    'unlink': h_unlink, 'stat64': h_stat, 'stat': h_stat, 'opendir': h_opendir, 'readdir64': h_readdir, 'readdir': h_readdir, 'closedir': h_closedir, 'getpid': lambda vm: 4242,
    'getenv': lambda vm, p: 0, '__errno_location': h_errno, '__ctype_b_loc': h_ctype, '__ctype_toupper_loc': h_toupper, 'strerror': h_strerror,
    'toupper': lambda vm, c: ord(chr(c & 255).upper()) if 97 <= (c & 255) < 123 else c,
    'llvm.lifetime.start.p0': lambda vm, *a: None, 'llvm.lifetime.end.p0': lambda vm, *a: None,
    '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm': cxx_create,
}

# ---------------------------------------------------------------- the UV type
def flagbits(x, dt):
    """Conditions as integers of a C array."""
    dt = np.dtype(dt)
    if isinstance(x, SymB): return ir.simp(z3.If(x.e, z3.BitVecVal(1, 8*dt.itemsize), z3.BitVecVal(0, 8*dt.itemsize)))
    return x
def nz(x):
    if isinstance(x, TArr): raise TypeError
    if ir.isbv(x): return ir.mk_b(x != 0)
    if isinstance(x, FB): return ir.mk_b(z3.Not(z3.fpIsZero(x.fp())))
    if isinstance(x, SymN): return x != 0
    return bool(x) if not isinstance(x, SymB) else x
class BArr(snp.SArr):
    """Conditions; as C integers they are bit-vectors."""
    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        if dt.kind in 'iu' and any(isinstance(x, SymB) for x in self.flat): return tcopy(self, dt)
        if dt.kind == 'b': return self
        return snp.SArr.astype(self, dt, *a, **k)
def objs(f, a):
    out = np.empty(a.shape, dtype=object)
    for k in np.ndindex(a.shape): out[k] = f(a.get(k) if isinstance(a, TArr) else a[k])
    if all(isinstance(x, (bool, np.bool_)) for x in out.flat): return out.astype(bool)
    return out.view(BArr)
def lnot(a):
    if isinstance(a, TArr): return objs(lambda x: sym.b_not(nz(x)), a)
    if isinstance(a, np.ndarray) and a.dtype == object and all(isinstance(x, (SymB, bool, np.bool_)) for x in a.flat): return objs(lambda x: sym.b_not(x), a)
    return snp.numpy_shim.logical_not(a)
def tcopy(a, dt=None):
    dt = np.dtype(a.dtype if dt is None else dt); t = cdrv.tarr_like(a.shape, dt, name='copy')
    for k in np.ndindex(a.shape):
        v = a.get(k) if isinstance(a, TArr) else a[k]
        t.set(k, flagbits(v, dt) if dt.kind in 'iu' else v)
    return t
def astype(self, dt, *a, **k):
    dt = np.dtype(dt)
    if dt != self.dtype:
        if self.dtype.kind == 'c' and dt.kind == 'c' or self.dtype.kind == 'f' and dt.kind in 'fc':
            for x in np.ndindex(self.shape):
                v = self.get(x); v = v if isinstance(v, tuple) else (v,)
                if any(isinstance(y, (FB, FX, Raw)) for y in v): raise EngineLimit('conversion of a number known by its bits')
            return tcopy(self, dt)
        if dt.kind == 'b': return objs(nz, self)
        if self.dtype.kind in 'iu' and dt.kind in 'iu' and dt.itemsize <= self.dtype.itemsize:
            t = cdrv.tarr_like(self.shape, dt, name='copy')
            for x in np.ndindex(self.shape):
                v = self.get(x); t.set(x, ir.icast('trunc', v, v.size(), 8*dt.itemsize) if ir.isbv(v) and v.size() > 8*dt.itemsize else v)
            return t
        if self.dtype.kind in 'iu' and dt.kind in 'iu':
            t = cdrv.tarr_like(self.shape, dt, name='copy')
            for x in np.ndindex(self.shape):
                v = self.get(x); t.set(x, ir.icast('sext' if self.dtype.kind == 'i' else 'zext', v, v.size(), 8*dt.itemsize) if ir.isbv(v) else v)
            return t
        raise EngineLimit('conversion of %s to %s' % (self.dtype, dt))
    return tcopy(self)
TArr.astype = astype
TArr.copy = lambda self: tcopy(self)
TArr.view = lambda self, *a: self if not a else (_ for _ in ()).throw(EngineLimit('view of a typed array'))
TArr.tobytes = lambda self: (_ for _ in ()).throw(EngineLimit('bytes of a typed array'))
class TMa:
    """A masked array over a typed array; the mask may hold conditions."""
    def __init__(self, data, mask): self.data, self.mask = data, mask
    shape = property(lambda s: s.data.shape)
    size = property(lambda s: s.data.size)
    dtype = property(lambda s: s.data.dtype)
    ndim = property(lambda s: len(s.data.shape))
    def __len__(self): return self.data.shape[0]
    def __getitem__(self, k): return TMa(self.data[k], self.mask if self.mask is np.ma.nomask else self.mask[k])
    def astype(self, dt): return TMa(self.data.astype(dt), self.mask)
    def copy(self): return TMa(self.data.copy(), self.mask if self.mask is np.ma.nomask else self.mask.copy())
    def filled(self, v=None):
        m = getmask(self); t = tcopy(self.data)
        for k in np.ndindex(t.shape):
            c = m[k]
            if isinstance(c, SymB): raise EngineLimit('filled() with symbolic flags')
            if c: t.set(k, v)
        return t
def getmask(a):
    if isinstance(a, TMa): return np.zeros(a.shape, dtype=bool) if a.mask is np.ma.nomask or np.shape(a.mask) == () else a.mask
    if isinstance(a, TArr): return np.zeros(a.shape, dtype=bool)
    return np.ma.getmaskarray(a)
def ma_array(data, mask=np.ma.nomask, dtype=None, **k):
    if isinstance(data, TMa): return TMa(data.data, getmask(data) if mask is np.ma.nomask else mask)
    if isinstance(data, TArr):
        if dtype is not None: data = data.astype(dtype)
        if isinstance(mask, TArr): mask = objs(nz, mask)
        return TMa(data, mask)
    return snp.numpy_shim.ma.array(data, mask=mask, dtype=dtype, **k)
_ma = snp.ModShim(snp.numpy_shim.ma, {'array': ma_array, 'masked_array': ma_array, 'getmaskarray': getmask, 'getdata': lambda a, *x: a.data if isinstance(a, TMa) else a if isinstance(a, TArr) else np.ma.getdata(a),
    'isMaskedArray': lambda a: isinstance(a, TMa) or np.ma.isMaskedArray(a), 'isMA': lambda a: isinstance(a, TMa) or np.ma.isMA(a), 'filled': lambda a, v=None: a.filled(v) if isinstance(a, TMa) else a if isinstance(a, TArr) else np.ma.filled(a, v),
    'getmask': lambda a: a.mask if isinstance(a, TMa) else np.ma.nomask if isinstance(a, TArr) else np.ma.getmask(a)})
def _arr(f):
    def g(x, dtype=None, *a, **k):
        if isinstance(x, TMa): x = x.data
        if isinstance(x, TArr):
            if dtype is None or np.dtype(dtype) == x.dtype: return tcopy(x) if f == 'array' else x
            return x.astype(dtype)
        if isinstance(x, (list, tuple)) and any(isinstance(y, (FB, FX, Raw)) or ir.isbv(y) or isinstance(y, SymC) and isinstance(y.re, (FB, FX)) for y in x):
            r = np.empty(len(x), dtype=object)
            for i, y in enumerate(x): r[i] = y
            return r.view(snp.SArr)
        return getattr(snp.numpy_shim, f)(x, *([dtype] if dtype is not None else []), *a, **k)
    return g
def _shape(a): return a.shape if isinstance(a, (TArr, TMa)) else np.shape(a)
def _ones(shape, dtype=float, **k): return np.ones(shape, dtype=dtype)
def _zeros(shape, dtype=float, **k): return np.zeros(shape, dtype=dtype)
def s_where(c, *a): return snp.numpy_shim.where(c, *a)
numpy_mir = snp.ModShim(snp.numpy_shim, {'ma': _ma, 'logical_not': lnot, 'array': _arr('array'), 'asarray': _arr('asarray'), 'ascontiguousarray': _arr('asarray'), 'shape': _shape, 'ones': _ones, 'zeros': _zeros,
    'invert': lambda a: lnot(a) if isinstance(a, TArr) and a.dtype.kind == 'b' else snp.numpy_shim.invert(a)})

class UVMeta(type): pass
def uvclass(vm):
    T = vm.g['@UVType']
    basic, dealloc, init, new = (vm.ldi(T + o, 8) for o in (32, 48, 296, 312))
    meth = cdrv.method_table(vm, vm.ldi(T + 232, 8))
    def tpalloc(vm, t, n): return vm.alloc(basic, 'UV object', bytearray(basic)).base
    vm.sti(T + 304, vm.extern('uv tp_alloc', tpalloc), 8)
    own_new = vm.mod.addrf.get(new) in vm.mod.funcs
    def tpfree(vm, p): vm.obj(p).dead = True; vm.last = None
    vm.sti(T + 320, vm.extern('uv tp_free', tpfree), 8)
    vm.types[type] = vm.types.get(type)
    class UV:
        __module__ = 'aipy._miriad'
        def __new__(cls, *a, **k):
            self = object.__new__(cls)
            p = vm.call(new, [T, vm.handle(a), 0]) if own_new else tpalloc(vm, T, 0)
            vm.sti(p, 1, 8); vm.sti(p + 8, T, 8)
            self._p = p; vm.a2o[p] = self; vm.o2a[id(self)] = p; vm.keep.append(self)
            return self
        def __init__(self, *args, **kw):
            t = tuple(args); vm.keep.append(t)
            vm.err = None
            r = vm.call(init, [self._p, vm.handle(t), vm.handle(kw) if kw else 0])
            if ir.sgn(concretize(r), 32) < 0:
                try: vm.throw()
                finally: UV._close(self)          # the object goes with the failed constructor
            if vm.err: vm.err = None; raise SystemError('result with an exception set')
    for n, (fn, flags) in meth.items():
        def mk(n=n, fn=fn, flags=flags):
            def m(self, *args, **kw): return local(vm.invoke(fn, self._p, [conv(vm, a) for a in args], kw, flags))
            m.__name__ = n; return m
        setattr(UV, n, mk())
    def close(self):
        """What deleting the last reference does."""
        if self._p is None: return
        p, self._p = self._p, None
        try: vm.call(dealloc, [p])
        except ir.CxxThrow:
            sym.CUR.prove(False, 'the process terminates (exception in the destructor of a data set)'); raise PathAbort()
    UV._close = close
    return UV
def conv(vm, a):
    if isinstance(a, TMa): return a.data
    if isinstance(a, tuple): return tuple(conv(vm, x) for x in a)
    if isinstance(a, np.ndarray):
        if a.dtype == object: return cdrv.from_sarr(a, None)
        return cdrv.from_sarr(a)
    if isinstance(a, np.generic): return a.item()
    return a
def local(r):
    if isinstance(r, tuple): return tuple(local(x) for x in r)
    return r
def build_y(vm): pass
def make():
    """aipy._miriad."""
    m = types.ModuleType('aipy._miriad')
    vm = cdrv.PyVM('_miriad', (HANDLERS,))
    m._vm = vm
    for n, (fn, flags) in vm.methods.items(): m.__dict__[n] = modfunc(vm, fn, flags, n)
    added = getattr(vm, 'added', {})
    m.UV = uvclass(vm)
    m.MAXCHAN = vm.pyobj(added['MAXCHAN']) if 'MAXCHAN' in added else 32768
    return m
make._fresh = True
def modfunc(vm, fn, flags, name):
    def f(*args, **kw): return local(vm.invoke(fn, 0, [conv(vm, a) for a in args], kw, flags))
    f.__name__ = name
    return f
ST = {'aipy._miriad': make, 'numpy': numpy_mir}
prepare = cdrv.prepare('_miriad')
