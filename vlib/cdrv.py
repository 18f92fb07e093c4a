"""Runs the compiled extension modules' IR under a model of the Python C-API and the numpy C-API.

Python objects are handles in the VM's memory; arrays are TArr (numpy metadata over a symbolic buffer)."""
import os, re, struct, types, math
import numpy as np
import z3
from . import ir, sym, snp
from .ir import VM, Module, emit_ir, concretize, sgn, FB, FX, Raw, BUILTIN
from .sym import SymN, SymC, SymB, EngineLimit, PathAbort, wrap, ex

PKGS = {
    'utils': (['aipy/utils/utils.cpp'], ['aipy/_common']),
    '_dsp': (['aipy/_dsp/dsp.c', 'aipy/_dsp/grid/grid.c'], ['aipy/_dsp', 'aipy/_dsp/grid', 'aipy/_common']),
    '_deconv': (['aipy/_deconv/deconv.cpp'], ['aipy/_common']),
    '_miriad': (['aipy/_miriad/miriad_wrap.cpp'] + ['aipy/_miriad/mir/' + f for f in ('uvio.c', 'hio.c', 'pack.c', 'bug.c', 'dio.c', 'headio.c', 'maskio.c')],
                ['aipy/_miriad', 'aipy/_miriad/mir', 'aipy/_common']),
}
MODS = {}
def module(pkg):
    """Parsed IR of the current sources of an extension module (cached in the process; PREPARE loads it before forking)."""
    if pkg not in MODS: MODS[pkg] = Module(emit_ir(*PKGS[pkg]))
    return MODS[pkg]
def prepare(*pkgs):
    def P(root, tier):
        for p in pkgs:
            try: module(p)
            except (RuntimeError, EngineLimit) as e: MODS[p] = EngineLimit('IR of %s: %s' % (p, e))
    return P

# ---------------------------------------------------------------- typed arrays
class TArr:
    """A numpy array whose buffer lives in VM memory."""
    __array_priority__ = 2000
    def __init__(self, meta, obj, root0):
        self.meta, self.obj, self.root0 = meta, obj, root0
    @property
    def addr(self): return self.obj.base + self.meta.__array_interface__['data'][0] - self.root0
    shape = property(lambda s: s.meta.shape)
    dtype = property(lambda s: s.meta.dtype)
    ndim = property(lambda s: s.meta.ndim)
    size = property(lambda s: s.meta.size)
    strides = property(lambda s: s.meta.strides)
    def __len__(self): return len(self.meta)
    def view_of(self, m): return TArr(m, self.obj, self.root0)
    def __getitem__(self, k):
        m = self.meta[k]
        if isinstance(m, np.ndarray): return self.view_of(m)
        return self.get(tuple(np.atleast_1d(k)) if not isinstance(k, tuple) else k)
    def off(self, idx):
        return self.meta.__array_interface__['data'][0] - self.root0 + sum(int(i) * s for i, s in zip(idx, self.meta.strides))
    def get(self, idx):
        idx = tuple(i + n if i < 0 else i for i, n in zip(idx, self.meta.shape))
        return load_elem(self.obj, self.off(idx), self.meta.dtype)
    def set(self, idx, v): store_elem(self.obj, self.off(idx), self.meta.dtype, v)
    def sym(self):
        """Elements as an object array of symbolic values (integers as bit-vectors stay as they are)."""
        out = np.empty(self.meta.shape, dtype=object)
        for k in np.ndindex(out.shape): out[k] = self.get(k)
        return out.view(snp.SArr)
    @property
    def flat(self): return self.sym().flat

class _M(ir.Memory):
    pass
def _mem(obj):
    m = ir.Memory(); m.last = obj; m.ab.append(obj.base); m.ao.append(obj)
    return m
FN = {'f': {4: 32, 8: 64, 16: 80}}
def guarded(guards):
    """np.zeros replacement that surrounds the buffer with a pattern recorded in guards."""
    def zeros(n, dt):
        G = 1024; dt = np.dtype(dt); nb = n * dt.itemsize
        big = np.full(nb + 2*G, 0xA5, np.uint8); big[G:G+nb] = 0
        guards.append((big, G, nb))
        return big[G:G+nb].view(dt)
    return zeros
def load_elem(o, off, dt):
    m = _mem(o); a = o.base + off; n = dt.itemsize
    if dt.kind == 'f': return m.ldf(a, FN['f'][n])
    if dt.kind == 'c':
        h = n // 2
        re, im = m.ldf(a, FN['f'][h]), m.ldf(a + h, FN['f'][h])
        if isinstance(re, float) and isinstance(im, float): return complex(re, im)
        if isinstance(re, (FB, FX, Raw)) or isinstance(im, (FB, FX, Raw)): return (re, im)
        return SymC(re, im)
    v = m.ldi(a, n)
    if v.__class__ is int:
        if dt.kind == 'b': return v != 0
        return sgn(v, 8*n) if dt.kind == 'i' else v
    return v
def store_elem(o, off, dt, v):
    m = _mem(o); a = o.base + off; n = dt.itemsize
    if isinstance(v, np.generic) and dt.kind != 'f' or isinstance(v, (np.float32, np.float64)): v = v.item()
    if dt.kind == 'f':
        if isinstance(v, (SymC, complex)): v = v.real
        if isinstance(v, (int, np.longdouble, SymB)) : v = float(v) if not isinstance(v, SymB) else sym.ite(v, wrap(1), wrap(0))
        m.stf(a, v, FN['f'][n]); return
    if dt.kind == 'c':
        h = n // 2
        re, im = v if isinstance(v, tuple) else (v.re, v.im) if isinstance(v, SymC) else (v.real, v.imag) if isinstance(v, complex) else (v, 0.0)
        m.stf(a, float(re) if isinstance(re, int) else re, FN['f'][h]); m.stf(a + h, float(im) if isinstance(im, int) else im, FN['f'][h]); return
    if isinstance(v, bool): v = int(v)
    if isinstance(v, float): v = int(v)
    if isinstance(v, int): v &= (1 << 8*n) - 1
    if isinstance(v, SymN):
        if v.isconst(): v = int(v.cval()) & ((1 << 8*n) - 1)
        elif not v.isint: raise EngineLimit('real number stored in an integer array')
    if isinstance(v, SymB): v = ir.icast('zext', v, 1, 8*n)
    m.sti(a, v, n)

def layout(shape, dt, how='C', zeros=np.zeros):
    """(root buffer, view): a view with the requested memory layout."""
    dt = np.dtype(dt); shape = tuple(shape); n = int(np.prod(shape))
    if how == 'F': base = zeros(n, dt); v = base.reshape(shape, order='F')
    elif how == 'step':
        big = tuple(2*s for s in shape); base = zeros(int(np.prod(big)), dt); v = base.reshape(big)[tuple(slice(0, 2*s, 2) for s in shape)]
    elif how == 'neg':
        base = zeros(n, dt); v = base.reshape(shape)[tuple(slice(None, None, -1) for s in shape)]
    elif how == 'bcast':        # zero stride on the first axis
        base = zeros(int(np.prod(shape[1:])), dt); v = np.lib.stride_tricks.as_strided(base, shape, (0,) + base.reshape(shape[1:]).strides if len(shape) > 1 else (0,))
    else: base = zeros(n, dt); v = base.reshape(shape)
    return base, v

def new_obj(size, name):
    E = ex()
    base = E.extra_addr = getattr(E, 'extra_addr', None) or ir.ARRAYS
    E.extra_addr = (base + size + 256) // 64 * 64
    o = ir.Obj(base, size, name, bytearray(size))
    return o
def tarr_like(shape, dtype, how='C', name='array'):
    base, v = layout(shape, dtype, how)
    o = new_obj(max(base.nbytes, 1), name)
    t = TArr(v, o, base.__array_interface__['data'][0]); t.base = base
    return t
def from_sarr(a, dtype=None):
    """Copy an object/numeric array into VM memory, choosing the type by content."""
    if isinstance(a, TArr): return a
    if a.dtype != object: dt = a.dtype
    elif dtype is not None: dt = np.dtype(dtype)
    elif getattr(a, '_dt', None) is not None: dt = np.dtype(a._dt)
    else:
        fl = list(a.flat)
        if any(isinstance(x, (SymC, complex)) for x in fl): dt = np.dtype(complex)
        elif fl and all(isinstance(x, (SymB, bool, np.bool_)) for x in fl): dt = np.dtype(bool)
        elif fl and all(isinstance(x, (int, np.integer)) or isinstance(x, SymN) and x.isint for x in fl): dt = np.dtype(int)
        else: dt = np.dtype(float)
    if a.dtype != object:
        how = 'C'
        t = tarr_like(a.shape, dt)
        # keep the real strides where they matter (non-contiguous views)
        if not a.flags.c_contiguous and a.size:
            b = a
            while b.base is not None and isinstance(b.base, np.ndarray): b = b.base
            if b.flags.c_contiguous or b.flags.f_contiguous:
                o = new_obj(max(b.nbytes, 1), 'array'); o.data[:b.nbytes] = b.tobytes('A')
                return TArr(a, o, b.__array_interface__['data'][0])
        for k in np.ndindex(a.shape): t.set(k, a[k])
        return t
    t = tarr_like(a.shape, dt)
    for k in np.ndindex(a.shape): t.set(k, a[k])
    return t

# ---------------------------------------------------------------- numpy API table
_api = None
def api_names():
    global _api
    if _api is None:
        h = open(os.path.join(np.get_include(), 'numpy', '__multiarray_api.h')).read()
        h = h.replace('\\\n', ' ')
        _api = {}
        for m in re.finditer(r'#define (\w+)\s+\(\*\((.*?)\)\s*PyArray_API\[(\d+)\]\)', h): _api.setdefault(int(m.group(3)), m.group(1))
        for m in re.finditer(r'#define (\w+)\s+\(\*?\(.*?PyArray_API\[(\d+)\]', h): _api.setdefault(int(m.group(2)), m.group(1))
    return _api

class PyErr(Exception):
    """A Python exception raised by C code."""

EXC = {n: getattr(__builtins__ if not isinstance(__builtins__, dict) else types.SimpleNamespace(**__builtins__), n) for n in
       ('ValueError', 'RuntimeError', 'IOError', 'ImportError', 'ModuleNotFoundError', 'MemoryError', 'TypeError', 'IndexError', 'KeyError', 'OverflowError', 'AttributeError', 'EOFError')}
UNICODE_FLAG, LONG_FLAG, TUPLE_FLAG, BYTES_FLAG = 1 << 28, 1 << 24, 1 << 26, 1 << 27

class PyVM(VM):
    def __init__(self, pkg, extra=()):
        mod = module(pkg)
        if isinstance(mod, Exception): raise mod
        VM.__init__(self, mod, (PYAPI,) + tuple(extra))
        self.a2o, self.o2a, self.keep = {}, {}, []
        self.err = None
        self.types = {}
        for t, nm in ((float, 'PyFloat_Type'), (complex, 'PyComplex_Type'), (int, 'PyLong_Type'), (str, 'PyUnicode_Type'), (types.CapsuleType if hasattr(types, 'CapsuleType') else type(np.core._multiarray_umath._ARRAY_API) if hasattr(np, 'core') else object, 'PyCapsule_Type')):
            self.types[t] = self.g.get('@' + nm) or self.alloc(512, nm, bytearray(512)).base
        for t in (np.ndarray, tuple, bytes, type, object, type(None), dict, bool): self.types[t] = self.alloc(512, 'type ' + t.__name__, bytearray(512)).base
        for t, fl in ((str, UNICODE_FLAG), (int, LONG_FLAG), (tuple, TUPLE_FLAG), (bytes, BYTES_FLAG), (bool, LONG_FLAG)): self.sti(self.types[t] + 168, fl, 8)
        none = self.g.get('@_Py_NoneStruct') or self.alloc(64, 'None', bytearray(64)).base
        self.sti(none, 0xffffffff, 8) if self.obj(none).size >= 16 else None
        self.a2o[none] = None; self.none = none
        for n, e in EXC.items():
            if '@PyExc_' + n in self.g: self.sti(self.g['@PyExc_' + n], self.handle(e), 8)
        # numpy table
        tab = self.buf(8 * 400, 'PyArray_API')
        names = api_names()
        for k in range(400):
            if k == 2: a = self.types[np.ndarray]
            else:
                nm = names.get(k, 'npyapi#%d' % k)
                a = self.extern('npy:%d' % k, npy_handler(nm))
            self.sti(tab + 8*k, a, 8)
        self.table = tab
        self.methods, self.typemeth = {}, {}
        self.mod_obj = None
        r = self.cfun('PyInit_' + pkg)
        if self.err: self.throw()
    # ---- handles
    def handle(self, o):
        if o is None: return self.none
        k = id(o)
        if k in self.o2a: return self.o2a[k]
        b = self.alloc(128, 'Python %s' % type(o).__name__, bytearray(128)).base
        self.sti(b, 0xffffffff, 8)
        T = np.ndarray if isinstance(o, TArr) else float if isinstance(o, (float, np.float64)) or isinstance(o, SymN) and not o.isint or isinstance(o, (FX, FB)) else bool if isinstance(o, (bool, np.bool_)) else \
            int if isinstance(o, int) or isinstance(o, SymN) or ir.isbv(o) else complex if isinstance(o, (SymC, complex)) else str if isinstance(o, str) else tuple if isinstance(o, tuple) else bytes if isinstance(o, bytes) else \
            type if isinstance(o, type) else dict if isinstance(o, dict) else object
        self.sti(b + 8, self.types[T], 8)
        if isinstance(o, str): self.sti(b + 16, len(o), 8)
        if isinstance(o, tuple):
            self.sti(b + 16, len(o), 8)
        if isinstance(o, TArr):
            # PyArrayObject_fields
            dims = self.buf(8 * max(o.ndim, 1), 'array dims'); st = self.buf(8 * max(o.ndim, 1), 'array strides')
            for i in range(o.ndim): self.sti(dims + 8*i, o.shape[i], 8); self.sti(st + 8*i, o.strides[i] & ir.M64, 8)
            de = self.alloc(128, 'array descr', bytearray(128)).base
            self.sti(de, 0xffffffff, 8)
            d = o.dtype
            self.sti(de + 24, ord(d.kind), 1); self.sti(de + 25, ord(d.char), 1); self.sti(de + 26, ord('=' if d.isnative else '>'), 1); self.sti(de + 28, d.num, 4)
            self.sti(de + 32, d.itemsize, 4); self.sti(de + 40, d.itemsize, 8)
            self.adopt(o.obj)
            fl = (1 if o.meta.flags.c_contiguous else 0) | (2 if o.meta.flags.f_contiguous else 0) | 0x100 | (0x400 if o.meta.flags.writeable else 0)
            self.sti(b + 16, o.addr, 8); self.sti(b + 24, o.ndim, 4); self.sti(b + 32, dims, 8); self.sti(b + 40, st, 8); self.sti(b + 48, 0, 8); self.sti(b + 56, de, 8); self.sti(b + 64, fl, 4)
        self.a2o[b] = o; self.o2a[k] = b; self.keep.append(o)
        return b
    def adopt(self, o):
        import bisect
        i = bisect.bisect_left(self.ab, o.base)
        if i < len(self.ab) and self.ab[i] == o.base: return
        self.ab.insert(i, o.base); self.ao.insert(i, o)
    def pyobj(self, a):
        a = concretize(a)
        if a not in self.a2o:
            raise EngineLimit('not a Python object: %#x' % a)
        return self.a2o[a]
    def seterr(self, exc, msg): self.err = (exc, msg)
    def throw(self):
        e, m = self.err; self.err = None
        raise e(m)
    def result(self, r):
        if r is None or r == 0:
            if self.err: self.throw()
            raise SystemError('NULL without an exception')
        if self.err: 
            self.err = None; raise SystemError('result with an exception set')
        return self.pyobj(r)
    def tolocal(self, x):
        """Arguments as C sees them: arrays are copied into VM memory; returns (object, write-back)."""
        if isinstance(x, TArr): return x, None
        if isinstance(x, np.ndarray):
            t = from_sarr(x)
            return t, (lambda: writeback(x, t))
        if isinstance(x, np.generic): return x.item(), None
        if isinstance(x, (list,)): return x, None
        return x, None
    def invoke(self, fn, self_addr, args, kw=None, flags=1):
        conv = [self.tolocal(a) for a in args]; kconv = {k: self.tolocal(a) for k, a in (kw or {}).items()}
        t = tuple(c[0] for c in conv)
        self.keep.append(t)
        ta = self.handle(t)
        if flags & 4: r = self.call(fn, [self_addr, self.none, 0])      # METH_NOARGS style is flags==4
        elif flags & 2: r = self.call(fn, [self_addr, ta, self.handle({k: c[0] for k, c in kconv.items()}) if kconv else 0])
        else: r = self.call(fn, [self_addr, ta])
        for _, wb in conv + list(kconv.values()):
            if wb: wb()
        return self.result(r)

def writeback(x, t):
    if not x.flags.writeable: return
    for k in np.ndindex(x.shape):
        v = t.get(k)
        if x.dtype == object: x[k] = wrapval(v)
        elif isinstance(v, (SymN, SymC, SymB, FB, FX, Raw)) or ir.isbv(v):
            raise EngineLimit('symbolic value written to a concrete array')
        else: x[k] = v
def wrapval(v): return v

# ---------------------------------------------------------------- argument parsing
def flatten_args(vm, f, vals):
    """Formats with nested tuples: (format without parentheses, flattened values), or (None, None) with an error set."""
    pos = [0]
    def level(vs, top):
        n, out, j, opt = 0, [], 0, False
        while pos[0] < len(f) and f[pos[0]] != ')':
            c = f[pos[0]]; pos[0] += 1
            if c == '|': opt = True; continue
            if c in '$!#&*': continue
            if c == '(':
                st = pos[0]
                if j < len(vs):
                    if not isinstance(vs[j], (tuple, list)): vm.seterr(TypeError, 'must be a sequence'); return None
                    r = level(list(vs[j]), False)
                    if r is None: return None
                    out += r
                else: raise EngineLimit('optional nested argument')
            elif j < len(vs): out.append(vs[j])
            j += 1
        pos[0] += 1
        if j < len(vs) or (j > len(vs) and not opt): vm.seterr(TypeError, 'sequence of length %d expected (%d given)' % (j, len(vs))); return None
        return out
    r = level(vals, True)
    if r is None: return None, None
    return f.replace('(', '').replace(')', ''), r
def parse_args(vm, args, fmt, outs, kwlist=None, kw=None):
    """PyArg_ParseTuple(AndKeywords).  Returns 1 or 0 with an error set."""
    vals = list(args); named = dict(kw or {})
    i = 0; opt = False; pos = 0; outs = list(outs)
    f = fmt.split(':')[0].split(';')[0]
    if '(' in f:
        f, vals = flatten_args(vm, f, vals)
        if f is None: return 0
    req = re.sub(r'[!#&*]', '', f.split('|')[0]); tot = re.sub(r'[|$!#&*]', '', f)
    if len(vals) > len(tot) or len(vals) + len(named) < len(req):
        vm.seterr(TypeError, 'function takes a different number of arguments (%d given)' % len(vals)); return 0
    if kwlist is not None:
        for k in named:
            if k not in kwlist: vm.seterr(TypeError, "'%s' is an invalid keyword argument" % k); return 0
            if kwlist.index(k) < len(vals): vm.seterr(TypeError, 'argument given twice'); return 0
    while i < len(f):
        c = f[i]; i += 1
        if c == '|': opt = True; continue
        if c == '$': continue
        mod = ''
        while i < len(f) and f[i] in '!#&*': mod += f[i]; i += 1
        if pos < len(vals): v, have = vals[pos], True
        elif kwlist is not None and kwlist[pos] in named: v, have = named[kwlist[pos]], True
        else: v, have = None, False
        pos += 1
        if not have:
            if not opt: vm.seterr(TypeError, 'missing argument'); return 0
            if mod == '!' or mod == '#': outs.pop(0)
            outs.pop(0)
            continue
        if c == 'O':
            if mod == '!':
                ty = outs.pop(0); a = vm.handle(v)
                if not issub(vm, vm.ldi(a + 8, 8), ty): vm.seterr(TypeError, 'argument has the wrong type'); return 0
            vm.sti(outs.pop(0), vm.handle(v), 8)
        elif c in 'ilhkIKLnbBH':
            p = outs.pop(0); sz = {'i': 4, 'I': 4, 'h': 2, 'H': 2, 'l': 8, 'k': 8, 'L': 8, 'K': 8, 'n': 8, 'b': 1, 'B': 1}[c]
            if isinstance(v, (float, complex, str, SymC, TArr)) or isinstance(v, SymN) and not v.isint or v is None: vm.seterr(TypeError, 'an integer is required'); return 0
            if isinstance(v, SymB): v = ir.icast('zext', v, 1, 8*sz)
            if ir.isbv(v):
                if v.size() > 8*sz:
                    e = z3.SignExt(v.size() - 8*sz, z3.Extract(8*sz - 1, 0, v)) == v
                    if not bool(ir.mk_b(e)): vm.seterr(OverflowError, 'int too large'); return 0
                    v = ir.icast('trunc', v, v.size(), 8*sz)
                elif v.size() < 8*sz: v = ir.icast('sext', v, v.size(), 8*sz)
            elif isinstance(v, SymN):
                if not bool(sym.b_and(v >= -(1 << (8*sz - 1)), v < 1 << (8*sz - 1))): vm.seterr(OverflowError, 'int too large'); return 0
            else:
                v = int(v)
                if not -(1 << (8*sz-1)) <= v < (1 << (8*sz - (0 if c in 'IkKHB' else 1))): vm.seterr(OverflowError, 'int too large'); return 0
                v &= (1 << 8*sz) - 1
            vm.sti(p, v, sz)
        elif c in 'fd':
            if isinstance(v, (str, complex, SymC, TArr)) or v is None: vm.seterr(TypeError, 'must be real number'); return 0
            vm.stf(outs.pop(0), tofloat(v) if c == 'd' else ir.r32(tofloat(v)), 32 if c == 'f' else 64)
        elif c in 'sz':
            if c == 'z' and v is None: vm.sti(outs.pop(0), 0, 8); continue
            if not isinstance(v, str): vm.seterr(TypeError, 'must be str, not %s' % type(v).__name__); return 0
            b = strbytes(v)
            if 0 in b and not mod: vm.seterr(ValueError, 'embedded null character'); return 0
            vm.sti(outs.pop(0), vm.newrefs(b), 8)
            if mod == '#': vm.sti(outs.pop(0), len(b), 8)
        elif c == 'p':
            vm.sti(outs.pop(0), int(bool(v)), 4)
        else: raise EngineLimit('argument format %r' % c)
    return 1
def newrefs(vm, b):
    """NUL-terminated string that may hold symbolic bytes."""
    o = vm.alloc(len(b) + 1, 'string argument', bytearray(len(b) + 1))
    for i, q in enumerate(b):
        if isinstance(q, int): o.data[i] = q
        else: vm.sti(o.base + i, q, 1)
    return o.base
VM.newrefs = newrefs
def sbyte(q):
    if isinstance(q, int): return q
    if isinstance(q, tuple): return ir.raw_bv(Raw([q]))
    return q
def sstr(r):
    r = [sbyte(q) for q in r]
    return bytes(r).decode('utf-8') if all(isinstance(q, int) for q in r) else SStr(r)
class SBytes(bytes):
    """A byte string with symbolic bytes."""
    @staticmethod
    def of(r):
        r = [sbyte(q) for q in r]
        if all(isinstance(q, int) for q in r): return bytes(r)
        s = bytes.__new__(SBytes, b'?' * len(r)); s.b = r; return s
    def __getitem__(self, k):
        if isinstance(k, slice): return SBytes.of(self.b[k])
        return self.b[k]
    def decode(self, *a): return sstr(self.b)
    def rstrip(self, *a): raise EngineLimit('rstrip of symbolic bytes')
class SStr(str):
    """A string with symbolic bytes: .b is a list of ints / 8-bit vectors."""
    def __new__(cls, b):
        s = str.__new__(cls, '?' * len(b)); s.b = list(b); return s
    def __iter__(self): return iter([sstr([q]) for q in self.b])
    def __getitem__(self, k): return sstr(self.b[k]) if isinstance(k, slice) else sstr([self.b[k]])
    def __add__(self, o): return sstr(self.b + strbytes(o)) if isinstance(o, str) else NotImplemented
    def __radd__(self, o): return sstr(strbytes(o) + self.b) if isinstance(o, str) else NotImplemented
def strbytes(v): return list(v.b) if isinstance(v, SStr) else list(v.encode('utf-8'))
def tofloat(v):
    if isinstance(v, (FX, FB)): return v
    if isinstance(v, SymN): return SymN(v.n, v.d)
    if isinstance(v, SymB): return sym.ite(v, wrap(1), wrap(0))
    if ir.isbv(v): return ir.inttofp(v, v.size(), 64)
    return float(v)
def issub(vm, t, ty): return t == ty or (t == vm.types[bool] and ty == vm.types[int])
def p_parse(vm, args, fmt, *outs): return parse_args(vm, vm.pyobj(args), vm.cstr(fmt).decode(), outs)
def p_parsekw(vm, args, kw, fmt, kwl, *outs):
    names = []
    while True:
        p = vm.ldi(kwl + 8*len(names), 8)
        if p == 0: break
        names.append(vm.cstr(p).decode())
    return parse_args(vm, vm.pyobj(args), vm.cstr(fmt).decode(), outs, names, vm.pyobj(kw) if kw else {})
def build(vm, f, args):
    """Py_BuildValue."""
    pos = [0]
    def items(end):
        out = []
        while pos[0] < len(f):
            c = f[pos[0]]
            if c == end: pos[0] += 1; return out
            if c in ' ,:\t': pos[0] += 1; continue
            out.append(one())
        return out
    def one():
        c = f[pos[0]]; pos[0] += 1
        mod = ''
        while pos[0] < len(f) and f[pos[0]] in '#&': mod += f[pos[0]]; pos[0] += 1
        if c == '(': return tuple(items(')'))
        if c == '[': return items(']')
        if c == '{':
            it = items('}'); return {it[i]: it[i+1] for i in range(0, len(it), 2)}
        a = args.pop(0)
        if c in 'ONS':
            if a == 0: raise EngineLimit('NULL in Py_BuildValue')
            return vm.pyobj(a)
        if c in 'ihb': return pyint(ir.icast('trunc', a, 64, 32) if False else a, 32)
        if c in 'lLn': return pyint(a, 64)
        if c in 'IkKHB': return a if isinstance(a, int) else pyint(a, 64)
        if c in 'fd': return a
        if c in 'szy':
            if c == 'y' or mod:
                if mod: n = concretize(args.pop(0)); r = vm.read_refs(a, n)
                else:
                    r = []
                    while True:
                        q = vm.ldi(a + len(r), 1)
                        if ir.icmp('eq', q, 0, 8): break
                        r.append(q)
                return SBytes.of(r) if c == 'y' else sstr(r)
            return None if a == 0 else vm.cstr(a).decode('utf-8')
        if c == 'D': raise EngineLimit('BuildValue D')
        raise EngineLimit('BuildValue %r' % c)
    r = items(None)
    return None if not r else r[0] if len(r) == 1 else tuple(r)
def pyint(a, n):
    if a.__class__ is int: return sgn(a, n)
    if isinstance(a, bool): return int(a)
    return a
def p_build(vm, fmt, *args):
    r = build(vm, vm.cstr(fmt).decode(), list(args)); vm.keep.append(r); return vm.handle(r)
def p_errfetch(vm, t, v, tb):
    e, vm.err = vm.err, None
    if not hasattr(vm, 'fetched'): vm.fetched = {}
    k = 0
    if e: k = vm.alloc(8, 'fetched exception', bytearray(8)).base; vm.fetched[k] = e
    vm.sti(t, k, 8); vm.sti(v, 0, 8); vm.sti(tb, 0, 8)
def p_errrestore(vm, t, v, tb): vm.err = vm.fetched.pop(concretize(t), None) if concretize(t) else None
def p_errfmt(vm, exc, fmt, *a): vm.seterr(vm.pyobj(exc), ir.cformat(vm, vm.cstr(fmt), a).decode('latin1')); return 0
def p_errstr(vm, exc, s): vm.seterr(vm.pyobj(exc), vm.cstr(s).decode('latin1'))
def p_module(vm, d, ver=0):
    # PyModuleDef: base 40 bytes, name 40, doc 48, size 56, methods 64
    meth = vm.ldi(d + 64, 8)
    vm.methods = method_table(vm, meth) if meth else {}
    vm.mod_obj = types.SimpleNamespace(); vm.keep.append(vm.mod_obj)
    return vm.handle(vm.mod_obj)
def method_table(vm, p):
    out = {}
    while True:
        n = vm.ldi(p, 8)
        if n == 0: return out
        out[vm.cstr(n).decode()] = (vm.ldi(p + 8, 8), vm.ldi(p + 16, 4)); p += 32
def p_addobj(vm, m, name, o): vm.added = getattr(vm, 'added', {}); vm.added[vm.cstr(name).decode()] = o; return 0
def p_obj(o):
    def g(vm, *a):
        class X: pass
        x = X(); vm.keep.append(x); return vm.handle(x)
    return g
def p_getattr(vm, o, n):
    b = vm.alloc(64, 'capsule', bytearray(64)).base
    vm.sti(b, 0xffffffff, 8); vm.sti(b + 8, vm.g.get('@PyCapsule_Type') or vm.types[object], 8)
    vm.a2o[b] = 'capsule'; return b
def p_long(vm, v): 
    r = pyint(v, 64); vm.keep.append(r); return vm.handle(r)
def p_float(vm, v):
    vm.keep.append(v); return vm.handle(v)
def p_aslong(vm, o):
    v = vm.pyobj(o)
    if isinstance(v, (float, complex, SymC, str)) or isinstance(v, SymN) and not v.isint or v is None or isinstance(v, TArr):
        vm.seterr(TypeError, 'an integer is required'); return ir.M64
    if isinstance(v, bool) or isinstance(v, int):
        if not -(1 << 63) <= v < 1 << 63: vm.seterr(OverflowError, 'Python int too large to convert to C long'); return ir.M64
        return int(v) & ir.M64
    if ir.isbv(v): return ir.icast('sext', v, v.size(), 64) if v.size() < 64 else v
    if isinstance(v, SymB): return ir.icast('zext', v, 1, 64)
    return v
def p_asdouble(vm, o):
    v = vm.pyobj(o)
    if isinstance(v, (str, SymC, complex)) or v is None: vm.seterr(TypeError, 'must be real number'); return -1.0
    return tofloat(v)
def p_bytesfrom(vm, p, n):
    s = SBytes.of(vm.read_refs(p, concretize(n))); vm.keep.append(s); return vm.handle(s)
def p_re(vm, o):
    v = vm.pyobj(o); return v.re if isinstance(v, SymC) else v.real if isinstance(v, complex) else p_asdouble(vm, o)
def p_im(vm, o):
    v = vm.pyobj(o); return v.im if isinstance(v, SymC) else v.imag if isinstance(v, complex) else 0.0
def mkc(x, y):
    c = object.__new__(SymC); c.re, c.im = x, y; return c
def p_cplx(vm, a, b):
    v = complex(a, b) if isinstance(a, float) and isinstance(b, float) else SymC(a, b) if not isinstance(a, (FB, FX)) else mkc(a, b)
    vm.keep.append(v); return vm.handle(v)
def p_str(vm, p, n=None):
    if n is None: n = len(vm.cstr(p))
    n = concretize(n)
    if n >> 63: vm.seterr(SystemError, 'Negative size passed to PyUnicode_FromStringAndSize'); return 0
    try: s = sstr(vm.read_refs(p, n))
    except UnicodeDecodeError: vm.seterr(ValueError, 'invalid utf-8'); return 0
    vm.keep.append(s); return vm.handle(s)
def p_encode(vm, o, enc, err):
    v = vm.pyobj(o)
    b = vm.alloc(64, 'bytes object', bytearray(64)).base
    vm.sti(b, 0xffffffff, 8); vm.sti(b + 8, vm.types[bytes], 8)
    bb = strbytes(v); p = vm.newrefs(bb); vm.a2o[b] = ('bytes', p, len(bb)); return b
def p_bytes(vm, o): return vm.a2o[o][1]
PYAPI = {
    'PyArg_ParseTuple': p_parse, '_PyArg_ParseTuple_SizeT': p_parse, 'PyArg_ParseTupleAndKeywords': p_parsekw, 'Py_BuildValue': p_build, '_Py_BuildValue_SizeT': p_build,
    'PyErr_Format': p_errfmt, 'PyErr_SetString': p_errstr, 'PyErr_Print': lambda vm: None, 'PyErr_Clear': lambda vm: setattr(vm, 'err', None),
    'PyErr_Fetch': p_errfetch, 'PyErr_Restore': p_errrestore, 'PyErr_WriteUnraisable': lambda vm, o: setattr(vm, 'err', None),
    'PyErr_ExceptionMatches': lambda vm, e: 0, 'PyErr_Occurred': lambda vm: vm.handle(vm.err[0]) if vm.err else 0, 'PyErr_NoMemory': lambda vm: (vm.seterr(MemoryError, ''), 0)[1],
    'Py_Initialize': lambda vm: None, 'PyModule_Create2': p_module, 'PyModule_AddObject': p_addobj, 'PyImport_ImportModule': p_obj('mod'), 'PyObject_GetAttrString': p_getattr,
    'PyCapsule_GetPointer': lambda vm, c, n: vm.table, '_Py_Dealloc': lambda vm, o: None, 'PyLong_FromLong': p_long, 'PyFloat_FromDouble': p_float, 'PyLong_AsLong': p_aslong,
    'PyFloat_AsDouble': p_asdouble, 'PyComplex_RealAsDouble': p_re, 'PyComplex_ImagAsDouble': p_im, 'PyComplex_FromDoubles': p_cplx,
    'PyUnicode_FromStringAndSize': p_str, 'PyUnicode_FromString': p_str, 'PyUnicode_AsEncodedString': p_encode, 'PyBytes_AsString': p_bytes,
    'PyUnicode_AsUTF8': lambda vm, o: vm.newrefs(strbytes(vm.pyobj(o))), 'PyType_Ready': lambda vm, t: 0, 'PyType_GenericNew': lambda vm, *a: 0,
    'PyType_IsSubtype': lambda vm, a, b: int(issub(vm, a, b)), 'PyIndex_Check': lambda vm, o: int(isinstance(vm.pyobj(o), (int, np.integer)) or isinstance(vm.pyobj(o), SymN) and vm.pyobj(o).isint or ir.isbv(vm.pyobj(o))),
}
def p_utf8size(vm, o, pn):
    b = strbytes(vm.pyobj(o))
    if pn: vm.sti(pn, len(b), 8)
    return vm.newrefs(b)
PYAPI['PyUnicode_AsUTF8AndSize'] = p_utf8size
PYAPI['PyBytes_FromStringAndSize'] = p_bytesfrom

# ---- numpy entries
def npy_new(vm, *a):
    """PyArray_New(subtype, nd, dims, type_num, strides, data, itemsize, flags, obj)"""
    _, nd, dims, tn, st, data, isz, fl, o = a
    shape = tuple(sgn(concretize(vm.ldi(dims + 8*i, 8)), 64) for i in range(nd))
    if any(s < 0 for s in shape): vm.seterr(ValueError, 'negative dimensions are not allowed'); return 0
    dt = np.dtype(np.sctypeDict[tn]) if tn in np.sctypeDict else np.dtype(next(c for c in '?bBhHiIlLqQfdgFDG' if np.dtype(c).num == tn))
    t = tarr_like(shape, dt, name='new array')
    if data: raise EngineLimit('PyArray_New over existing data')
    t.obj.data[:] = b'\xa5' * len(t.obj.data)
    vm.keep.append(t); return vm.handle(t)
def bynum(tn):
    tn = concretize(tn)
    return np.dtype(next(c for c in '?bBhHiIlLqQfdgFDG' if np.dtype(c).num == tn))
def npy_handler(nm):
    if nm == 'PyArray_New': return npy_new
    if nm == 'PyArray_Return': return lambda vm, a: a
    if nm in ('PyArray_MultiplyList', 'PyArray_MultiplyIntList'):
        w = 8 if nm == 'PyArray_MultiplyList' else 4
        return lambda vm, p, n: math.prod(sgn(vm.ldi(p + w*i, w), 8*w) for i in range(concretize(n))) & ((1 << 8*w) - 1)
    if nm == 'PyArray_Size': return lambda vm, a: vm.pyobj(a).size
    if nm in ('PyArray_Zeros', 'PyArray_Empty'):
        def z(vm, nd, dims, de, fort):
            shape = tuple(sgn(concretize(vm.ldi(dims + 8*i, 8)), 64) for i in range(nd))
            t = tarr_like(shape, bynum(vm.ldi(de + 28, 4)), 'F' if fort else 'C', name='new array')
            if nm == 'PyArray_Empty': t.obj.data[:] = b'\xa5' * len(t.obj.data)
            vm.keep.append(t); return vm.handle(t)
        return z
    if nm == 'PyArray_DescrFromType':
        def de(vm, tn):
            b = vm.alloc(128, 'descr', bytearray(128)).base; d = bynum(tn)
            vm.sti(b, 0xffffffff, 8); vm.sti(b + 24, ord(d.kind), 1); vm.sti(b + 25, ord(d.char), 1); vm.sti(b + 26, ord('='), 1); vm.sti(b + 28, d.num, 4); vm.sti(b + 32, d.itemsize, 4); vm.sti(b + 40, d.itemsize, 8)
            return b
        return de
    if nm == 'PyArray_FromAny' or nm == 'PyArray_FromArray':
        def fa(vm, o, de, *r):
            fl = r[-2] if nm == 'PyArray_FromAny' else r[-1]
            t = vm.pyobj(o)
            if not isinstance(t, TArr): raise EngineLimit('PyArray_FromAny of %s' % type(t).__name__)
            d = t.dtype if de == 0 else bynum(vm.ldi(de + 28, 4))
            if d == t.dtype and (not fl & 1 or t.meta.flags.c_contiguous) and not fl & 0x20: return o
            if d != t.dtype and not fl & 0x10 and not np.can_cast(t.dtype, d, 'safe'):
                vm.seterr(TypeError, "Cannot cast array data from %r to %r according to the rule 'safe'" % (t.dtype, d)); return 0
            ints = d.kind == t.dtype.kind == 'i'
            if d != t.dtype and (d.kind != t.dtype.kind or d.kind not in 'fci'): raise EngineLimit('conversion of array types')
            n = tarr_like(t.shape, d, name='converted array')
            for k in np.ndindex(t.shape):
                v = t.get(k)
                if ints and d != t.dtype:
                    w, w0 = 8 * d.itemsize, 8 * t.dtype.itemsize
                    if ir.isbv(v): v = ir.simp(z3.Extract(w - 1, 0, v) if w < w0 else z3.SignExt(w - w0, v))
                    elif isinstance(v, int): v = int(v); v = ((v + (1 << w-1)) & ((1 << w) - 1)) - (1 << w-1)
                    elif isinstance(v, np.integer): v = int(v)
                    elif w < w0: raise EngineLimit('conversion of array types')
                n.set(k, v)
            vm.keep.append(n); return vm.handle(n)
        return fa
    if nm == 'PyArray_GetNDArrayCVersion': return lambda vm: 0x02000000 if np.lib.NumpyVersion(np.__version__) >= '2.0.0' else 0x01000009
    if nm == 'PyArray_GetNDArrayCFeatureVersion': return lambda vm: 0x7fffffff & 0x00000014
    if nm == 'PyArray_GetEndianness': return lambda vm: 1
    def g(vm, *a): raise EngineLimit('numpy C-API function %s' % nm)
    return g

# ---------------------------------------------------------------- module objects
def cmodule(pkg, extra=()):
    """A Python module whose functions run the compiled module's IR (one VM per path)."""
    def make():
        m = types.ModuleType('aipy.' + pkg)
        vm = PyVM(pkg, extra)
        m._vm = vm
        for n, (fn, flags) in vm.methods.items(): setattr(m, n, cfunc(vm, fn, flags, n))
        return m
    make._fresh = True
    return make
def cfunc(vm, fn, flags, name):
    def f(*args, **kw): return local(vm.invoke(fn, 0, args, kw, flags))
    f.__name__ = name
    return f
def local(r):
    """Results of C functions as the symbolic Python layer wants them."""
    if isinstance(r, tuple): return tuple(local(x) for x in r)
    return r
