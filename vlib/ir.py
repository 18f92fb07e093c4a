"""Symbolic executor for LLVM IR (textual form, as emitted by clang from the current C/C++ sources).

Every function is translated to Python closures over a flat, bounds-checked memory.  Integers are
machine words (Python ints), bit-vectors (z3) or unbounded symbolic integers (SymN, range-checked);
floating-point values are Python floats, symbolic reals (SymN) or opaque bit patterns (FB)."""
import re, os, sys, math, struct, subprocess, tempfile, shutil, bisect, sysconfig
import numpy as np
import z3
from . import sym
from .sym import SymN, SymB, EngineLimit, PathAbort, wrap, ex

REPO = os.environ.get('AIPY_REPO', '/repo')
M64 = (1 << 64) - 1

# ================================================================ compiling to IR
def emit_ir(srcs, incs, repo=None):
    """clang -S -emit-llvm for each source, linked into one module; returns its text."""
    repo = repo or REPO
    d = tempfile.mkdtemp(prefix='aipyir.')
    try:
        inc = ['-I' + sysconfig.get_paths()['include'], '-I' + np.get_include()] + ['-I' + os.path.join(repo, i) for i in incs]
        outs, ps = [], []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + '.ll')
            cc = 'clang++' if s.endswith('.cpp') else 'clang'
            ps.append((s, subprocess.Popen([cc, '-O1', '-w', '-DNDEBUG', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '-fwrapv', '-fno-strict-aliasing', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize',
                '-fno-unroll-loops', '-fno-builtin', '-S', '-emit-llvm', *inc, os.path.join(repo, s), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            outs.append(o)
        for s, p in ps:
            out = p.communicate()[0]
            if p.returncode: raise RuntimeError('clang failed on %s: %s' % (s, out.decode(errors='replace')[-2000:]))
        if len(outs) > 1:
            o = os.path.join(d, 'all.ll')
            p = subprocess.run(['llvm-link', '-S', *outs, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: raise RuntimeError('llvm-link: ' + p.stdout.decode()[-2000:])
            outs = [o]
        return open(outs[0]).read()
    finally: shutil.rmtree(d, ignore_errors=True)

# ================================================================ types
TOK = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|"[^"]*"|%[-\w.$]+|@[-\w.$]+|![-\w.]*|#\d+|\.\.\.|0xK[0-9A-F]+|0x[0-9A-F]+|-?\d+\.\d+e[+-]?\d+|-?\d+|[A-Za-z_][\w.]*|[\[\]{}()<>=,*:|])')
def toks(s):
    out, i = [], 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise EngineLimit('IR token: ' + s[i:i+40])
        out.append(m.group(1)); i = m.end()
    return out

class Ty:
    __slots__ = ('k', 'n', 'el', 'size', 'align', 'offs', 'name')
    def __init__(self, k, n=0, el=None, size=0, align=1, offs=None): self.k, self.n, self.el, self.size, self.align, self.offs = k, n, el, size, align, offs
    def __repr__(self): return '%s%s' % (self.k, self.n or '')
def _int(n):
    b = (n + 7) // 8; s = 1
    while s < b: s *= 2
    return Ty('i', n, size=s, align=min(s, 16))
INTS = {}
def IntT(n):
    if n not in INTS: INTS[n] = _int(n)
    return INTS[n]
FLT, DBL, F80 = Ty('f', 32, size=4, align=4), Ty('f', 64, size=8, align=8), Ty('f', 80, size=16, align=16)
PTR, VOID, LABEL, META, TOKEN = Ty('p', 64, size=8, align=8), Ty('v'), Ty('label'), Ty('meta'), Ty('token')
def ArrT(n, el): return Ty('a', n, el, size=n * el.size, align=el.align)
def StructT(els, packed=False):
    off, al, offs = 0, 1, []
    for e in els:
        a = 1 if packed else e.align
        off = (off + a - 1) // a * a
        offs.append(off); off += e.size; al = max(al, a)
    return Ty('s', 0, els, size=(off + al - 1) // al * al, align=al, offs=offs)

SKIP = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext', 'noalias', 'immarg', 'returned', 'inreg', 'nofree', 'nest', 'allocptr', 'allocalign', 'dead_on_unwind', 'writable', 'nosync', 'noreturn', 'swiftself'}
SKIPP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'captures', 'range', 'initializes', 'inalloca', 'preallocated', 'byref'}

class Parser:
    def __init__(self, mod, t): self.m, self.t, self.i = mod, t, 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def acc(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def exp(self, x):
        y = self.next()
        if y != x: raise EngineLimit('IR: expected %s got %s in %s' % (x, y, ' '.join(self.t)[:200]))
    def skipattrs(self):
        while True:
            x = self.peek()
            if x in SKIP: self.i += 1
            elif x in SKIPP:
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(': d += 1
                        if y == ')':
                            d -= 1
                            if not d: break
                elif x == 'align': self.i += 1
            else: return
    def type(self):
        x = self.next(); T = None
        if x[0] == 'i' and x[1:].isdigit(): T = IntT(int(x[1:]))
        elif x == 'ptr':
            T = PTR
            if self.peek() == 'addrspace': self.i += 4
        elif x == 'void': T = VOID
        elif x == 'float': T = FLT
        elif x == 'double': T = DBL
        elif x == 'x86_fp80': T = F80
        elif x == 'label': T = LABEL
        elif x == 'metadata': T = META
        elif x == 'token': T = TOKEN
        elif x == '[':
            n = int(self.next()); self.exp('x'); el = self.type(); self.exp(']'); T = ArrT(n, el)
        elif x == '{' or x == '<':
            packed = x == '<'
            if packed:
                if self.peek() != '{': raise EngineLimit('vector type')
                self.exp('{')
            els = []
            if not self.acc('}'):
                while True:
                    els.append(self.type())
                    if self.acc('}'): break
                    self.exp(',')
            if packed: self.exp('>')
            T = StructT(els, packed)
        elif x[0] == '%': T = self.m.named(x)
        else: raise EngineLimit('IR type: %s in %s' % (x, ' '.join(self.t)[:200]))
        if self.peek() == '(':      # function type: skip its parameter list
            d = 0
            while True:
                y = self.next()
                if y == '(': d += 1
                elif y == ')':
                    d -= 1
                    if not d: break
        return T
    def value(self, T):
        """('r', name) | ('c', python constant) | ('g', global) | ('ge', ...) | ('agg', list) | ('bytes', b)"""
        x = self.next()
        if x[0] == '%': return ('r', x)
        if x[0] == '@': return ('g', x)
        if x in ('null', 'undef', 'poison', 'zeroinitializer', 'none'):
            if T.k in ('a', 's'): return ('zero',)
            return ('c', 0.0 if T.k == 'f' else 0)
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if T.k == 'f':
            if x.startswith('0xK'):
                h = int(x[3:], 16); se, ma = h >> 64, h & M64
                if se & 0x7fff == 0x7fff: v = math.inf if ma << 1 & M64 == 0 else math.nan
                else: v = math.ldexp(ma, (se & 0x7fff) - 16383 - 63)
                return ('c', -v if se >> 15 else v)
            if x.startswith('0x'): return ('c', struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0])
            return ('c', float(x))
        if x[0] == '-' or x[0].isdigit(): return ('c', int(x) & ((1 << T.n) - 1))
        if x[0] == 'c' and x[1:2] == '"':
            s = x[2:-1]
            b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode('latin1'))
            return ('bytes', b)
        if x == 'getelementptr':
            self.acc('inbounds')
            self.exp('('); S = self.type(); self.exp(','); self.type(); b = self.value(PTR); idx = []
            while self.acc(','):
                it = self.type(); idx.append((it, self.value(it)))
            self.exp(')')
            return ('ge', S, b, idx)
        if x in ('inttoptr', 'ptrtoint', 'bitcast'):
            self.exp('('); t = self.type(); v = self.value(t); self.exp('to'); self.type(); self.exp(')'); return v
        if x in ('[', '{', '<'):
            if x == '<': self.exp('{')
            out = []; end = ']' if x == '[' else '}'
            if not self.acc(end):
                while True:
                    t = self.type(); out.append((t, self.value(t)))
                    if self.acc(end): break
                    self.exp(',')
            if x == '<': self.exp('>')
            return ('agg', out)
        raise EngineLimit('IR value: %s in %s' % (x, ' '.join(self.t)[:200]))

# ================================================================ values
class FB:
    """A floating-point value known by its bits."""
    __slots__ = ('bv', 'n')
    def __init__(self, bv, n): self.bv, self.n = bv, n
    def fp(self): return z3.fpBVToFP(self.bv, z3.Float32() if self.n == 32 else z3.Float64())
class FI(FB):
    """A 32-bit integer as a double."""
    __slots__ = ('i',)
    def __init__(self, i): self.i, self.n = i, 64
    @property
    def bv(self): return z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), self.i, z3.Float64()))
class FX:
    """A single-precision value given by bits, widened to double (exact)."""
    __slots__ = ('fb',)
    def __init__(self, fb): self.fb = fb
class Raw:
    """Bytes of values that cannot be taken apart: each int or (value, k, n)."""
    __slots__ = ('p',)
    def __init__(self, p): self.p = tuple(p)

BV = z3.BitVecRef
def sgn(x, n): return x - (1 << n) if x >> (n - 1) else x
def isbv(x): return isinstance(x, BV)
def to_bv(x, n):
    if isinstance(x, BV):
        if x.size() == n: return x
        raise EngineLimit('bit-vector width %d, wanted %d' % (x.size(), n))
    if isinstance(x, bool): return z3.BitVecVal(int(x), n)
    if isinstance(x, int): return z3.BitVecVal(x, n)
    if isinstance(x, Raw):
        v = raw_bv(x)
        if v is not None: return v
        raise EngineLimit('bit operation on the bytes of a symbolic number')
    if isinstance(x, SymB): return z3.If(x.e, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    raise EngineLimit('cannot view %s as bits' % type(x).__name__)
def simp(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e
def raw_bv(r):
    parts = []
    for q in r.p:
        if isinstance(q, int): parts.append(z3.BitVecVal(q, 8))
        elif isbv(q[0]): parts.append(z3.Extract(8*q[1] + 7, 8*q[1], q[0]))
        else: return None
    return simp(z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0])
def sint(x, n):
    """Signed mathematical value as SymN (or raise)."""
    if isinstance(x, SymN): return x
    if isinstance(x, bool): return wrap(int(x))
    if isinstance(x, int): return wrap(sgn(x, n))
    if isinstance(x, SymB): return sym.ite(x, wrap(1), wrap(0))
    raise EngineLimit('mixing bit-vectors and mathematical integers')
def norm(x, n):
    """Wrap a mathematical integer into the signed n-bit range."""
    if x.isconst(): return int(x.cval()) & ((1 << n) - 1)
    E = ex()
    if E.pins:
        w = E.pinned(x)
        if w is not None: return w & ((1 << n) - 1)
    key = ('norm', x.key(), n)
    r = E.memo.get(key)
    if r is None:
        lo, hi = -(1 << (n-1)), (1 << (n-1)) - 1
        iv = interval(x)
        if iv is not None and lo <= iv[0] and iv[1] <= hi: r = x
        elif E.proved(sym.b_and(x >= lo, x <= hi)): r = x
        else: r = (x - lo) % (1 << n) + lo
        r.isint = True
        E.memo[key] = r
    return r
def interval(x):
    """Cheap bounds from the declared ranges of the inputs, or None."""
    if x.d is not None: return None
    b = ex().bounds; lo = hi = 0
    for m, c in x.n.items():
        l = h = 1
        for a, k in m:
            if a not in b: return None
            p, q = b[a]
            for _ in range(k):
                c4 = (l*p, l*q, h*p, h*q); l, h = min(c4), max(c4)
        if c < 0: l, h = h*c, l*c
        else: l, h = l*c, h*c
        lo += l; hi += h
    return lo, hi

def mk_b(e):
    if isinstance(e, bool): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymB(e)

def pure(e):
    """Does the condition speak only about bit-vectors?"""
    at = ex().atoms
    return not any(v in at for v in ex()._vars(e))

# ---- integer operations on symbolic operands
def ibin(op, x, y, n):
    if isinstance(x, bool): x = int(x)
    if isinstance(y, bool): y = int(y)
    mask = (1 << n) - 1
    if isinstance(x, int) and isinstance(y, int):
        if op == 'add': return (x + y) & mask
        if op == 'sub': return (x - y) & mask
        if op == 'mul': return (x * y) & mask
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if op == 'shl': return (x << y) & mask if y < n else 0
        if op == 'lshr': return x >> y if y < n else 0
        if op == 'ashr': return (sgn(x, n) >> min(y, n - 1)) & mask
        if y == 0: 
            ex().prove(False, 'integer division by zero'); raise PathAbort()
        if op == 'udiv': return x // y
        if op == 'urem': return x % y
        a, b = sgn(x, n), sgn(y, n); q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return (q if op == 'sdiv' else a - q * b) & mask
    if n == 1 and (isinstance(x, SymB) or isinstance(y, SymB)):
        if op == 'and': return sym.b_and(sym.toB(bool(x) if isinstance(x, int) else x), sym.toB(bool(y) if isinstance(y, int) else y))
        if op == 'or': return sym.b_or(sym.toB(bool(x) if isinstance(x, int) else x), sym.toB(bool(y) if isinstance(y, int) else y))
        if op in ('xor', 'add', 'sub'):
            if isinstance(x, int): x, y = y, x
            if isinstance(y, int): return sym.b_not(x) if y else x
            return mk_b(z3.Xor(x.e, y.e))
    if isinstance(x, Raw) or isinstance(y, Raw):
        r = rawop(op, x, y, n)
        if r is not None: return r
    if isinstance(x, SymN) or isinstance(y, SymN): return nbin(op, x, y, n)
    a, b = to_bv(x, n), to_bv(y, n)
    if op == 'add': e = a + b
    elif op == 'sub': e = a - b
    elif op == 'mul': e = a * b
    elif op == 'and': e = a & b
    elif op == 'or': e = a | b
    elif op == 'xor': e = a ^ b
    elif op == 'shl': e = a << b
    elif op == 'lshr': e = z3.LShR(a, b)
    elif op == 'ashr': e = a >> b
    else:
        if not isinstance(y, int) or y == 0:
            if bool(mk_b(b == 0)):
                ex().prove(False, 'integer division by zero'); raise PathAbort()
        e = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](a, b)
    return simp(e)

def rawop(op, x, y, n):
    """Byte-granular operations on Raw; None when not applicable."""
    nb = n // 8
    if not isinstance(x, Raw): x, y = y, x
    v = raw_bv(x)
    if v is not None and (isbv(v) or isinstance(v, int)):
        return ibin(op, v, y, n) if not isinstance(y, Raw) else None
    if op in ('shl', 'lshr') and isinstance(y, int) and y % 8 == 0:
        k = y // 8
        return tidy(([0]*k + list(x.p))[:nb] if op == 'shl' else (list(x.p)[k:] + [0]*nb)[:nb])
    if op in ('or', 'add', 'xor', 'and'):
        q = y.p if isinstance(y, Raw) else tuple((y >> 8*i) & 255 for i in range(nb)) if isinstance(y, int) else None
        if q is not None:
            out = []
            for a, b in zip(x.p, q):
                if isinstance(a, int) and isinstance(b, int): out.append({'or': a | b, 'xor': a ^ b, 'and': a & b, 'add': a | b if not a & b else None}[op])
                elif op != 'and' and b == 0: out.append(a)
                elif op != 'and' and a == 0: out.append(b)
                elif op == 'and' and b in (0, 255): out.append(a if b else 0)
                elif op == 'and' and a in (0, 255): out.append(b if a else 0)
                else: out.append(None)
            if None not in out: return tidy(out)
    if op == 'ashr' and y == n - 1:
        c = signof(x)
        if c is not None: return (1 << n) - 1 if bool(c) else 0
    # single bytes of a mathematical integer: value
    vals = [rawint(z) if isinstance(z, Raw) else z for z in (x, y)]
    if all(z is not None for z in vals): return nbin(op, vals[0], vals[1], n)
    return None
def signof(x):
    """Sign of the high bytes of a number that fits below them: that of the number."""
    q = x.p
    if any(t.__class__ is not tuple or t[0] is not q[0][0] or t[1] != q[0][1] + i for i, t in enumerate(q)): return None
    v = q[0][0]; h = 1 << (8*(q[0][1] + len(q)) - 1)
    if not isinstance(v, SymN) or not v.isint: return None
    return v < 0 if ex().proved(sym.b_and(v >= -h, v < h)) else None
def tidy(p):
    if all(isinstance(q, int) for q in p): return int.from_bytes(bytes(p), 'little')
    q0 = p[0]
    if not isinstance(q0, int) and all(not isinstance(q, int) and q[0] is q0[0] and q[1] == i and q[2] == len(p) for i, q in enumerate(p)): return q0[0]
    return Raw(p)
def rawint(r):
    """Mathematical (unsigned) value of bytes of symbolic integers, or None.  Recognises sign/zero extension."""
    E = ex(); n = len(r.p)
    tot = wrap(0); i = 0
    while i < n:
        q = r.p[i]
        if isinstance(q, int): tot = tot + (q << (8*i)); i += 1; continue
        v = q[0]
        if not (isinstance(v, SymN) and v.isint): return None
        k = q[1]; j = i
        while j < n and not isinstance(r.p[j], int) and r.p[j][0] is v and r.p[j][1] == k + (j - i): j += 1
        m = j - i
        # sign or zero fill above the low bytes of v
        if k == 0 and i == 0 and j < n and all(isinstance(t, int) for t in r.p[j:]):
            top = set(r.p[j:])
            if top == {0} and E.proved(sym.b_and(v >= 0, v < 1 << 8*m)): return v
            if top == {255} and E.proved(sym.b_and(v < 0, v >= -(1 << (8*m - 1)))): return v
        if k == 0 and m == q[2] and i == 0 and j == n: return v
        w = (v // (1 << 8*k)) if k else v
        w = w % (1 << 8*m)
        tot = tot + w * (1 << 8*i); i = j
    tot.isint = True
    if not tot.isconst():
        if bool(tot >= 1 << (8*n - 1)): tot = tot - (1 << 8*n)
        tot.isint = True
    return tot

def nbin(op, x, y, n):
    if isinstance(x, Raw): x = rawint(x)
    if isinstance(y, Raw): y = rawint(y)
    if op == 'or' and (isinstance(y, int) and y == 0): return x
    if op in ('and', 'lshr', 'shl', 'ashr', 'or', 'xor') and isinstance(x, int) and op in ('and', 'or', 'xor'): x, y = y, x
    if op in ('add', 'sub', 'mul'):
        a, b = sint(x, n), sint(y, n)
        return norm(a + b if op == 'add' else a - b if op == 'sub' else a * b, n)
    if op == 'shl' and isinstance(y, int): return norm(sint(x, n) * (1 << y), n)
    if op == 'ashr' and isinstance(y, int):
        r = sint(x, n) // (1 << y); r.isint = True; return r
    if op == 'lshr' and isinstance(y, int):
        a = sint(x, n)
        if not bool(a >= 0): a = a + (1 << n)
        r = a // (1 << y); r.isint = True; return norm(r, n)
    if op == 'and' and isinstance(y, int):
        if y & (y + 1) == 0:
            r = sint(x, n) % (y + 1); r.isint = True; return norm(r, n)
        return norm(sint(x, n) & sgn(y, n), n)
    if op == 'or':
        a, b = sint(x, n), sint(y, n)
        for k in range(1, n):
            for p, q in ((a, b), (b, a)):
                if E_div(p, 1 << k) and ex().proved(sym.b_and(q >= 0, q < 1 << k)): return norm(p + q, n)
        if isinstance(y, int): return norm(a + sgn(y, n) - (a & sgn(y, n)), n)
    if op == 'xor' and isinstance(y, int):
        if y == (1 << n) - 1: return norm(-sint(x, n) - 1, n)
        a = sint(x, n); k = sgn(y, n); return norm(a + k - (a & k) * 2, n)
    if op in ('sdiv', 'srem', 'udiv', 'urem'):
        a, b = sint(x, n), sint(y, n)
        if not b.isconst() or b.cval() == 0:
            if bool(b == 0):
                ex().prove(False, 'integer division by zero'); raise PathAbort()
        if op in ('udiv', 'urem'):
            if not bool(a >= 0): a = a + (1 << n)
            if not bool(b >= 0): b = b + (1 << n)
            q, r = sym.divmod_(a, b)
        else:
            na, nb = not bool(a >= 0), not bool(b >= 0)
            q, r = sym.divmod_(-a if na else a, -b if nb else b)
            if na != nb: q = -q
            if na: r = -r
        v = q if op in ('sdiv', 'udiv') else r
        v.isint = True
        return norm(v, n)
    raise EngineLimit('integer operation %s on symbolic numbers' % op)
def E_div(p, k):
    return p.d is None and all(c.denominator == 1 and c % k == 0 for c in p.n.values()) and not p.isconst()

def rawpair(op, x, y):
    """Equality of the k-th bytes of two numbers: all bytes agree exactly when the numbers do."""
    if isinstance(y, int) and isinstance(x, Raw) and len(x.p) == 1: return rawconst(op, x.p[0], y)
    if not (isinstance(x, Raw) and isinstance(y, Raw) and len(x.p) == len(y.p) == 1): return None
    p, q = x.p[0], y.p[0]
    if isinstance(p, int) or isinstance(q, int) or p[1:] != q[1:] or not isinstance(p[0], SymN) or not isinstance(q[0], SymN): return None
    E = ex(); a, b, k, n = p[0], q[0], p[1], p[2]
    key = ('bytes', n) + tuple(sorted((repr(a.key()), repr(b.key()))))
    if not hasattr(E, 'bytepairs') or E.bytepairs[0] is not E.pre: E.bytepairs = (E.pre, {})
    T = E.bytepairs[1]
    if key not in T:
        w = a == b
        if isinstance(w, bool): T[key] = [w] * n if w else None
        if not isinstance(w, bool) or not w:
            bs = [z3.Bool('byte!%d!%d' % (len(T), i)) for i in range(n)]
            T[key] = [SymB(c) for c in bs]
            e = z3.And(*bs)
            E.assume(SymB(z3.Not(e) if w is False else e == w.e))
    r = T[key][k]
    return r if op == 'eq' else sym.b_not(r)
def rawconst(op, p, b):
    """The k-th byte of a floating-point number against a known byte: once all bytes of a known number have been met, they agree exactly when the numbers do."""
    if isinstance(p, int) or not isinstance(p[0], SymN) or p[0].isint or p[2] not in (4, 8): return None
    E = ex(); v, k, n = p
    if not hasattr(E, 'byteconst') or E.byteconst[0] is not E.pre: E.byteconst = (E.pre, {}, {})
    T, last = E.byteconst[1:]; key = (repr(v.key()), n)
    c = T.get(key + (k, b))
    if c is None:
        c = T[key + (k, b)] = z3.Bool('byteis!%d' % len(T))
        for kk, o in list(T.items()):
            if len(kk) == 4 and kk[:3] == key + (k,) and kk[3] != b: E.assume(SymB(z3.Not(z3.And(c, o))))
    L = last.setdefault(key, {}); L[k] = b
    if k == n - 1 and len(L) == n:
        by = bytes(L[i] for i in range(n)); f = struct.unpack('<f' if n == 4 else '<d', by)[0]
        if key + (by,) not in T:
            T[key + (by,)] = z3.BoolVal(True); w = v == f if math.isfinite(f) else False
            E.assume(SymB(z3.And(*[T[key + (i, L[i])] for i in range(n)]) == sym.zB(w)))
    return SymB(c) if op == 'eq' else SymB(z3.Not(c))
def icmp(op, x, y, n):
    if isinstance(x, bool): x = int(x)
    if isinstance(y, bool): y = int(y)
    if op in ('eq', 'ne') and (isinstance(x, Raw) or isinstance(y, Raw)):
        if isinstance(x, int): x, y = y, x
        r = rawpair(op, x, y) if isinstance(x, Raw) else None
        if r is not None: return r
    if isinstance(x, int) and isinstance(y, int):
        if op == 'eq': return x == y
        if op == 'ne': return x != y
        if op[0] == 's': x, y = sgn(x, n), sgn(y, n)
        op = op[1:]
        return x < y if op == 'lt' else x <= y if op == 'le' else x > y if op == 'gt' else x >= y
    if isinstance(x, Raw) and isinstance(y, int) and (op, sgn(y, n)) in (('slt', 0), ('sgt', -1), ('sge', 0), ('sle', -1)):
        c = signof(x)
        if c is not None: return c if op in ('slt', 'sle') else sym.b_not(c)
    if isinstance(x, Raw):
        v = raw_bv(x); x = v if v is not None else rawint(x)
        if x is None: raise EngineLimit('comparison of raw bytes')
        return icmp(op, x, y, n)
    if isinstance(y, Raw):
        v = raw_bv(y); y = v if v is not None else rawint(y)
        if y is None: raise EngineLimit('comparison of raw bytes')
        return icmp(op, x, y, n)
    if n == 1:
        bx, by = [sym.toB(bool(v)) if isinstance(v, int) else v for v in (x, y)]
        e = sym.zB(bx) == sym.zB(by)
        if op == 'eq': return mk_b(e)
        if op == 'ne': return mk_b(z3.Not(e))
        raise EngineLimit('i1 order')
    if isinstance(x, SymN) or isinstance(y, SymN):
        a, b = sint(x, n), sint(y, n)
        if op[0] == 'u':
            if not bool(a >= 0): a = a + (1 << n)
            if not bool(b >= 0): b = b + (1 << n)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[op if op in ('eq', 'ne') else op[1:]]()
        return r
    a, b = to_bv(x, n), to_bv(y, n)
    return mk_b({'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[op]())

def icast(op, x, n, m):
    """n-bit to m-bit."""
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int):
        if op == 'trunc': x &= (1 << m) - 1
        elif op == 'sext': x = sgn(x, n) & ((1 << m) - 1)
        return x
    if isinstance(x, SymB):
        if op == 'trunc': return x
        one = (1 << m) - 1 if op == 'sext' else 1
        if pure(x.e): return z3.If(x.e, z3.BitVecVal(one, m), z3.BitVecVal(0, m))
        return one if bool(x) else 0
    if isinstance(x, Raw):
        v = raw_bv(x)
        if v is not None: return icast(op, v, n, m)
        if op == 'trunc' and m % 8 == 0: return tidy(x.p[:m//8])
        if op == 'zext': return tidy(list(x.p) + [0] * (m//8 - len(x.p)))
        x = rawint(x)
        if x is None: raise EngineLimit('cast of raw bytes')
    if isinstance(x, SymN):
        if op == 'trunc':
            if m == 1:
                r = x % 2; return mk_b(sym.zB(r != 0))
            return norm(x, m)
        if op == 'zext':
            if not bool(x >= 0): x = x + (1 << n); x.isint = True
        return x
    if op == 'trunc':
        e = z3.Extract(m - 1, 0, x)
        if m == 1: return mk_b(e == 1)
        return simp(e)
    return simp(z3.SignExt(m - n, x) if op == 'sext' else z3.ZeroExt(m - n, x))

def iselect(c, a, b, n):
    if not isinstance(c, SymB): return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b): return a
    if n == 1:
        A, B = [sym.zB(sym.toB(bool(v)) if isinstance(v, int) else v) for v in (a, b)]
        return mk_b(z3.If(c.e, A, B))
    if isinstance(a, SymN) or isinstance(b, SymN):
        if isinstance(a, (SymN, int)) and isinstance(b, (SymN, int)) and n < 64:
            r = sym.ite(c, sint(a, n), sint(b, n)); r.isint = True; return r
        return a if bool(c) else b
    if (isbv(a) or isinstance(a, int)) and (isbv(b) or isinstance(b, int)) and pure(c.e) and not (isinstance(a, int) and isinstance(b, int) and n == 64):
        return simp(z3.If(c.e, to_bv(a, n), to_bv(b, n)))
    return a if bool(c) else b
def fselect(c, a, b):
    if not isinstance(c, SymB): return a if c else b
    if a is b: return a
    if isinstance(a, FB) and isinstance(b, FB) and pure(c.e): return FB(z3.If(c.e, a.bv, b.bv), a.n)
    if isinstance(a, (FB, FX, Raw)) or isinstance(b, (FB, FX, Raw)): return a if bool(c) else b
    if any(isinstance(v, float) and not math.isfinite(v) for v in (a, b)): return a if bool(c) else b
    if collapse:
        if ex().proved(c): return a
        if ex().proved(sym.b_not(c)): return b
    return sym.ite(c, a, b)
collapse = False        # resolve selections that follow from the facts about their own variables

# ---- floating point
def r32(x):
    if isinstance(x, float) and math.isfinite(x):
        try: return struct.unpack('<f', struct.pack('<f', x))[0]
        except OverflowError: return math.inf if x > 0 else -math.inf
    return x
def fnum(x):
    if isinstance(x, (FB, FX, Raw)): raise EngineLimit('arithmetic on a value known only by its bits')
    return x
def fdiv_c(a, b):
    if b == 0:
        if a == 0 or a != a or b != b: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    try: return a / b
    except OverflowError: return math.inf
class FBZ(FB):
    """A zero of either sign."""
    __slots__ = ()
def fbtriv(op, x, y, n):
    """Multiplication by one or zero and addition of a zero, on finite numbers known by their bits."""
    for a, b in ((x, y), (y, x)):
        if op == 'fmul' and isinstance(a, FB) and b.__class__ is float and b in (1.0, 0.0):
            if b == 1.0: return a
            ex_, w = (8, 32) if a.n == 32 else (11, 64)
            if not bool(mk_b(z3.Extract(w - 2, w - 1 - ex_, a.bv) != (1 << ex_) - 1)): raise EngineLimit('product with a number that is not finite')
            s = z3.Extract(w - 1, w - 1, a.bv)
            if math.copysign(1., b) < 0: s = ~s
            return FBZ(z3.simplify(z3.Concat(s, z3.BitVecVal(0, w - 1))), w)
    if op == 'fadd':
        for a, b in ((x, y), (y, x)):
            if not isinstance(a, FB): continue
            if isinstance(b, FBZ): z = b.bv
            elif b.__class__ is float and b == 0.0: z = z3.BitVecVal(1 << (a.n - 1) if math.copysign(1., b) < 0 else 0, a.n)
            else: continue
            isz = z3.Extract(a.n - 2, 0, a.bv) == 0
            return (FBZ if isinstance(a, FBZ) else FB)(z3.simplify(z3.If(isz, a.bv & z, a.bv)), a.n)
        if x.__class__ is float and isinstance(y, FBZ) or y.__class__ is float and isinstance(x, FBZ): return x if x.__class__ is float else y
    return None
FPARITH = False          # set by checks whose scenarios compute with numbers known by their bits
def tofp(x, n):
    if isinstance(x, FX): x = z3.fpFPToFP(z3.RNE(), x.fb.fp(), z3.Float64()); return x
    if isinstance(x, FB): return x.fp()
    return z3.FPVal(x, z3.Float32() if n == 32 else z3.Float64())
def fbop(op, x, y, n):
    """IEEE arithmetic decided by the solver."""
    f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
    return FB(z3.fpToIEEEBV(f(z3.RNE(), tofp(x, n), tofp(y, n))), n)
def fbin(op, x, y, n):
    if x.__class__ is float and y.__class__ is float:
        if op == 'fadd': r = x + y
        elif op == 'fsub': r = x - y
        elif op == 'fmul': r = x * y
        elif op == 'fdiv': r = fdiv_c(x, y)
        elif op == 'frem': r = math.fmod(x, y)
        return r32(r) if n == 32 else r
    if isinstance(x, FB) or isinstance(y, FB):
        r = fbtriv(op, x, y, n)
        if r is not None: return r
    if FPARITH and op != 'frem' and (isinstance(x, (FB, FX)) or isinstance(y, (FB, FX))) and all(isinstance(v, (FB, FX, float)) for v in (x, y)): return fbop(op, x, y, n)
    x, y = fnum(x), fnum(y)
    for a, b, left in ((x, y, True), (y, x, False)):
        if isinstance(a, float) and not math.isfinite(a):        # a is inf or nan, b a finite symbolic number
            if a != a: return a
            if op == 'fadd': return a
            if op == 'fsub': return a if left else -a
            if op == 'fmul':
                if bool(wrap(b) == 0): return math.nan
                return a if bool(b > 0) else -a
            if op == 'fdiv':
                if not left: return wrap(0)
                return a if bool(b >= 0) else -a
    x, y = wrap(x), wrap(y)
    if op == 'fadd': r = x + y
    elif op == 'fsub': r = x - y
    elif op == 'fmul': r = x * y
    elif op == 'fdiv':
        if not (y.isconst() and y.cval() != 0):
            if bool(y == 0):
                if bool(x == 0): return math.nan
                return math.inf if bool(x > 0) else -math.inf
        r = x / y
    else: raise EngineLimit('frem')
    r = wrap(r)
    if r.isint: r = SymN(r.n, r.d)
    return r
def fcmp(op, x, y):
    if isinstance(x, (FB, FX)) or isinstance(y, (FB, FX)): return fcmp_bits(op, x, y)
    for v in (x, y):
        if isinstance(v, float) and v != v: return op[0] == 'u' if op not in ('true', 'false') else op == 'true'
    if op == 'ord': return True
    if op == 'uno': return False
    k = op[1:]
    if x.__class__ is float and y.__class__ is float:
        return x == y if k == 'eq' else x != y if k == 'ne' else x < y if k == 'lt' else x <= y if k == 'le' else x > y if k == 'gt' else x >= y
    for v, w, f in ((x, y, 1), (y, x, -1)):
        if isinstance(v, float) and math.isinf(v):
            s = (1 if v > 0 else -1) * f       # sign of x - y
            return {'eq': False, 'ne': True, 'lt': s < 0, 'le': s < 0, 'gt': s > 0, 'ge': s > 0}[k]
    x, y = wrap(fnum(x)), wrap(fnum(y))
    return x == y if k == 'eq' else x != y if k == 'ne' else x < y if k == 'lt' else x <= y if k == 'le' else x > y if k == 'gt' else x >= y
def fcmp_bits(op, x, y):
    k = op[1:]
    for a, b, sw in ((x, y, False), (y, x, True)):
        if a.__class__ is FI and b.__class__ is float and abs(b) < 2.0**31 and b == int(b) and k in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            i, c = a.i, z3.BitVecVal(int(b), a.i.size())
            if sw: i, c = c, i
            return mk_b({'eq': i == c, 'ne': i != c, 'lt': i < c, 'le': i <= c, 'gt': i > c, 'ge': i >= c}[k])
    def conv(v):
        if isinstance(v, FB): return v.fp()
        if isinstance(v, FX): return z3.fpFPToFP(z3.RNE(), v.fb.fp(), z3.Float64())
        return v
    x, y = conv(x), conv(y)
    s = x.sort() if not isinstance(x, float) else y.sort()
    if isinstance(x, float): x = z3.FPVal(x, s)
    if isinstance(y, float): y = z3.FPVal(y, s)
    uno = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    k = op[1:]
    if op == 'ord': return mk_b(z3.Not(uno))
    if op == 'uno': return mk_b(uno)
    e = {'eq': z3.fpEQ, 'ne': lambda a, b: z3.Not(z3.fpEQ(a, b)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[k](x, y)
    return mk_b(z3.Or(uno, e) if op[0] == 'u' else z3.And(z3.Not(uno), e))
def fneg(x):
    if isinstance(x, FB): return FB(x.bv ^ z3.BitVecVal(1 << (x.n - 1), x.n), x.n)
    if isinstance(x, FX): return FX(fneg(x.fb))
    return -x if isinstance(x, float) else -wrap(fnum(x))
def fcast(op, x, n, m):
    if op == 'fpext':
        if isinstance(x, FB): return FX(x)
        return x
    if op == 'fptrunc':
        if isinstance(x, FX): return x.fb
        if isinstance(x, FB): raise EngineLimit('rounding a value known only by its bits')
        return r32(x) if m == 32 else x
def fptoint(x, m, signed=True):
    if FPARITH and isinstance(x, (FB, FX)):
        v = tofp(x, 64); lo = z3.FPVal(-2.0**(m - 1) if signed else 0., v.sort()); hi = z3.FPVal(2.0**(m - 1) if signed else 2.0**m, v.sort())
        r = (z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(m))
        return simp(z3.If(z3.And(z3.fpGEQ(v, lo) if signed else z3.fpGT(v, z3.FPVal(-1., v.sort())), z3.fpLT(v, hi)), r, z3.BitVecVal(1 << (m - 1), m)))
    x = fnum(x)
    if isinstance(x, float):
        if not math.isfinite(x): return 1 << (m - 1)
        v = int(x)
        if not (-(1 << (m-1)) <= v < (1 << m)): return 1 << (m - 1)
        return v & ((1 << m) - 1)
    r = sym.trunc(x); r = SymN(r.n, r.d, True)
    if r.isconst(): return int(r.cval()) & ((1 << m) - 1)
    return norm(r, m)
def inttofp(x, n, m, signed=True):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int):
        v = float(sgn(x, n) if signed else x); return r32(v) if m == 32 else v
    if isinstance(x, SymB): x = 1 if bool(x) else 0; return float(x)
    if isinstance(x, Raw):
        v = raw_bv(x)
        x = v if v is not None else rawint(x)
        if isinstance(x, int): return inttofp(x, n, m, signed)
    if isinstance(x, SymN):
        if not signed and not bool(x >= 0): x = x + (1 << n)
        return SymN(x.n, x.d)
    if isbv(x) and FPARITH and signed and n <= 32 and m == 64: return FI(x)
    if isbv(x) and FPARITH: return FB(z3.fpToIEEEBV((z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(z3.RNE(), x, z3.Float32() if m == 32 else z3.Float64())), m)
    if isbv(x): return IF(x, n, signed)
    raise EngineLimit('conversion of a bit-vector to floating point')
def IF(x, n, signed):
    """A bit-vector integer as a real number."""
    E = ex(); key = ('bv2r', x.get_id(), signed)
    if key not in E.memo:
        v = E.fresh('bv2i', isint=True); E.keep.append(x)
        E.axiom(E.atoms[sym.v_atom(v)] == z3.BV2Int(x, signed))
        E.memo[key] = v
    v = E.memo[key]
    return SymN(v.n, v.d)
def bitcast(x, S, T):
    if S.k == T.k or {S.k, T.k} == {'i', 'p'}: return x
    if T.k == 'f':
        if isinstance(x, int): return struct.unpack('<f' if T.n == 32 else '<d', x.to_bytes(T.n//8, 'little'))[0]
        if isbv(x): return FB(x, T.n)
        if isinstance(x, Raw):
            t = tidy(x.p)
            if isbv(t) or isinstance(t, int): return bitcast(t, S, T)
            if isinstance(t, SymN): return t
            v = raw_bv(x)
            if v is not None: return bitcast(v, S, T)
            return x
    else:
        if isinstance(x, float): return int.from_bytes(struct.pack('<f' if S.n == 32 else '<d', x), 'little')
        if isinstance(x, FB): return x.bv
        if isinstance(x, (SymN, FX)): return Raw((x, k, T.n//8) for k in range(T.n//8))
        if isinstance(x, Raw): return x
    raise EngineLimit('bitcast')

# ================================================================ memory
FILL = 0xA5        # bytes of memory that nothing was stored in (a check may choose others)
class Obj:
    __slots__ = ('base', 'size', 'data', 'sym', 'name', 'ro', 'dead', 'dirty')
    def __init__(self, base, size, name, data=None):
        self.base, self.size, self.name, self.ro, self.dead = base, size, name, False, False
        self.data = data if data is not None else bytearray(bytes([FILL]) * size)
        self.sym = None

STACK = 0x7f0000000000
ARRAYS = 0x400000000000
FUNCS = 0x10000000
class CxxThrow(Exception):
    def __init__(self, obj, ti): self.obj, self.ti = obj, ti
class CExit(Exception): pass

class Memory:
    def __init__(self):
        self.hb, self.ho = [], []          # heap and globals
        self.sb, self.so = [], []
        self.ab, self.ao = [], []          # array buffers
        self.hnext, self.snext = 0x20000000, STACK
        self.last = None
        self.where = None
    def alloc(self, size, name='heap', data=None, align=16):
        base = self.hnext
        o = Obj(base, size, name, data)
        self.hb.append(base); self.ho.append(o)
        self.hnext = (base + size + 64 + 15) // 16 * 16
        return o
    def salloc(self, size, align=16):
        base = (self.snext + align - 1) // align * align
        o = Obj(base, size, 'stack')
        self.sb.append(base); self.so.append(o)
        self.snext = base + size + 32
        return base
    def obj(self, a):
        o = self.last
        if o is not None and o.base <= a < o.base + o.size and not o.dead: return o
        if a >= STACK: b, l = self.sb, self.so
        elif a >= ARRAYS: b, l = self.ab, self.ao
        else: b, l = self.hb, self.ho
        i = bisect.bisect_right(b, a) - 1
        if i >= 0:
            o = l[i]
            if a <= o.base + o.size and not o.dead: self.last = o; return o
        return None
    def bad(self, a, n, kind):
        if os.environ.get("VERIF_DEBUG") == "3": __import__("traceback").print_stack(); print("addr %#x" % a, file=sys.stderr)
        o = self.obj(a)
        ex().prove(False, 'memory: %s of %d bytes %s (%s)' % (kind, n, 'beyond %s' % o.name if o is not None else 'outside any object', self.fname()))
        raise PathAbort()
    def fname(self): return self.where() if self.where else ''
    def find(self, a, n, kind):
        o = self.last
        if o is not None and o.base <= a and a + n <= o.base + o.size and not o.dead: return o
        o = self.obj(a)
        if o is None or a + n > o.base + o.size: self.bad(a, n, kind)
        return o
    def caddr(self, a, n, kind):
        """A symbolic address: prove it stays inside one object, then fork over its values."""
        if isinstance(a, bool): return int(a)
        if isinstance(a, int): return a
        E = ex()
        if isinstance(a, Raw):
            t = raw_bv(a)
            if t is None: raise EngineLimit('address made of raw bytes')
            a = t
            if isinstance(a, int): return a
        if isinstance(a, SymN):
            if a.isconst(): return int(a.cval())
            if E.pins:
                w = E.pinned(a)
                if w is not None: return w
            z, cmpf = a.z(), lambda l, h: SymB(z3.And(a.z() >= l, a.z() <= h))
        else: z, cmpf = a, lambda l, h: SymB(z3.And(z3.ULE(l, a), z3.ULE(a, h)))
        r, m = E.check([z == z], want_model=True)
        if r == z3.unsat: raise PathAbort()
        if m is None: raise EngineLimit('cannot resolve a symbolic address')
        v = m.eval(z, model_completion=True).as_long()
        o = self.obj(v)
        if o is None or v + n > o.base + o.size:
            # maybe another value lies inside: look for the object through the base constant
            E.prove(mk_b(z != v), 'memory: %s of %d bytes %s (%s)' % (kind, n, 'beyond %s' % o.name if o is not None else 'outside any object', self.fname()))
            E.assume(mk_b(z != v))
            cnt = E.extra['badaddr'] = E.extra.get('badaddr', 0) + 1
            if o is None: raise PathAbort()
            E.assume(cmpf(o.base, o.base + o.size - n))
            if E.check([z == z])[0] == z3.unsat: raise PathAbort()
        else:
            inr = cmpf(o.base, o.base + o.size - n)
            if not E.prove(inr, 'memory: %s of %d bytes beyond %s (%s)' % (kind, n, o.name, self.fname())): E.assume(inr)
        return concretize(z)
    # ---- typed access
    def ldi(self, a, n):
        if a.__class__ is not int: a = self.caddr(a, n, 'read')
        o = self.last
        if o is None or a < o.base or a + n > o.base + o.size or o.dead: o = self.find(a, n, 'read')
        off = a - o.base
        if o.sym is None: return int.from_bytes(o.data[off:off + n], 'little')
        r = self.refs(o, off, n)
        if r is None: return int.from_bytes(o.data[off:off + n], 'little')
        q = r[0]
        if q.__class__ is tuple and q[1] == 0 and q[2] == n:
            v = q[0]
            if all(p.__class__ is tuple and p[0] is v and p[1] == i for i, p in enumerate(r)):
                if isbv(v) or isinstance(v, SymN) and v.isint: return v
                return Raw(r)
        if any(p.__class__ is tuple and not isbv(p[0]) for p in r):
            R = Raw(r)
            if all(p.__class__ is int or isinstance(p[0], SymN) and p[0].isint for p in r):
                # low bytes with sign fill, e.g. a widened 16-bit value
                if n > 1 and r[0].__class__ is tuple and r[0][1] == 0 and r[-1].__class__ is int:
                    v = rawint(R)
                    if v is not None: return v
                if n > 1 and r[0].__class__ is tuple and r[0][1] == 0 and all(p.__class__ is tuple and p[0] is r[0][0] and p[1] == i for i, p in enumerate(r)):
                    return norm(r[0][0], 8 * n)
            return R
        return raw_bv(Raw(r))
    def refs(self, o, off, n):
        """Byte references, or None when all concrete."""
        s = o.sym; out = None
        for i in range(n):
            q = s.get(off + i)
            if q is not None:
                if out is None: out = list(o.data[off:off + n])
                out[i] = q
        return out
    def sti(self, a, v, n):
        if a.__class__ is not int: a = self.caddr(a, n, 'write')
        o = self.last
        if o is None or a < o.base or a + n > o.base + o.size or o.dead: o = self.find(a, n, 'write')
        if o.ro: self.bad(a, n, 'write to constant')
        off = a - o.base
        if v.__class__ is int:
            o.data[off:off + n] = v.to_bytes(n, 'little')
            if o.sym is not None: self.clear(o, off, n)
            return
        if isinstance(v, bool): return self.sti(a, int(v), n)
        if o.sym is None: o.sym = {}
        if isinstance(v, SymB): v = icast('zext', v, 1, 8*n) if n > 0 else v
        if isinstance(v, int): return self.sti(a, v, n)
        if isinstance(v, Raw):
            for i, q in enumerate(v.p):
                if q.__class__ is int: o.data[off + i] = q; o.sym.pop(off + i, None)
                else: o.sym[off + i] = q
            return
        if isbv(v) and v.size() != 8*n: raise EngineLimit('store width')
        for i in range(n): o.sym[off + i] = (v, i, n)
    def clear(self, o, off, n):
        s = o.sym
        for i in range(off, off + n): s.pop(i, None)
        if not s: o.sym = None
    def ldf(self, a, nbits):
        n = nbits // 8
        if a.__class__ is not int: a = self.caddr(a, n, 'read')
        o = self.find(a, n, 'read'); off = a - o.base
        r = self.refs(o, off, n) if o.sym is not None else None
        if r is None:
            b = bytes(o.data[off:off + n])
            if nbits == 80: return f80_from(b)
            return struct.unpack('<f' if nbits == 32 else '<d', b)[0]
        q = r[0]
        if q.__class__ is tuple and q[1] == 0 and q[2] == n:
            v = q[0]
            if all(p.__class__ is tuple and p[0] is v and p[1] == i for i, p in enumerate(r)):
                if isbv(v): return FB(v, nbits)
                if isinstance(v, SymN) and v.isint: raise EngineLimit('integer read as floating point')
                return v
        if any(p.__class__ is tuple and not isbv(p[0]) for p in r): return Raw(r)
        v = raw_bv(Raw(r))
        if isinstance(v, int): return struct.unpack('<f' if nbits == 32 else '<d', v.to_bytes(n, 'little'))[0]
        return FB(v, nbits)
    def stf(self, a, v, nbits):
        n = nbits // 8
        if a.__class__ is not int: a = self.caddr(a, n, 'write')
        o = self.find(a, n, 'write')
        if o.ro: self.bad(a, n, 'write to constant')
        off = a - o.base
        if v.__class__ is float:
            if nbits == 32:
                try: b = struct.pack('<f', v)
                except OverflowError: b = struct.pack('<f', math.copysign(math.inf, v))
            elif nbits == 64: b = struct.pack('<d', v)
            else: b = f80_to(v)
            o.data[off:off + n] = b
            if o.sym is not None: self.clear(o, off, n)
            return
        if o.sym is None: o.sym = {}
        if isinstance(v, FB): v = v.bv
        if isinstance(v, Raw):
            for i, q in enumerate(v.p):
                if q.__class__ is int: o.data[off + i] = q; o.sym.pop(off + i, None)
                else: o.sym[off + i] = q
            return
        if isinstance(v, SymN) and v.isint: v = SymN(v.n, v.d)
        if isinstance(v, SymN) and v.isconst(): return self.stf(a, float(v.cval()), nbits)
        for i in range(n): o.sym[off + i] = (v, i, n)
    # ---- bulk
    def copy(self, d, s, n, move=False):
        n = concretize(n); d = self.caddr(d, n, 'write'); s = self.caddr(s, n, 'read')
        if n == 0: return
        so, do = self.find(s, n, 'read'), self.find(d, n, 'write')
        if do.ro: self.bad(d, n, 'write to constant')
        a, b = s - so.base, d - do.base
        by = bytes(so.data[a:a + n]); sy = {i: so.sym[a + i] for i in range(n) if a + i in so.sym} if so.sym is not None else None
        do.data[b:b + n] = by
        if do.sym is not None: self.clear(do, b, n)
        if sy:
            if do.sym is None: do.sym = {}
            for i, q in sy.items(): do.sym[b + i] = q
    def fillw(self, d, v, w, n):
        if d.__class__ is not int or v.__class__ is not int: return False
        o = self.find(d, n*w, 'write'); b = d - o.base
        o.data[b:b + n*w] = (v & ((1 << 8*w) - 1)).to_bytes(w, 'little') * n
        if o.sym is not None: self.clear(o, b, n*w)
        return True
    def fill(self, d, v, n):
        n = concretize(n); d = self.caddr(d, n, 'write')
        if n == 0: return
        o = self.find(d, n, 'write'); b = d - o.base
        if v.__class__ is not int: 
            for i in range(n): self.sti(d + i, v, 1)
            return
        o.data[b:b + n] = bytes([v & 255]) * n
        if o.sym is not None: self.clear(o, b, n)
    def cstr(self, a, limit=1 << 20):
        """Concrete NUL-terminated bytes."""
        out = bytearray()
        while True:
            c = self.ldi(a, 1)
            if c.__class__ is not int: c = concretize(c)
            if c == 0: return bytes(out)
            out.append(c); a += 1
            if len(out) > limit: raise EngineLimit('string too long')
    def bytes_at(self, a, n):
        o = self.find(a, n, 'read') if n else None
        if not n: return b''
        if o.sym is not None and self.refs(o, a - o.base, n) is not None: raise EngineLimit('symbolic bytes where concrete ones are needed')
        return bytes(o.data[a - o.base:a - o.base + n])
    def write_bytes(self, a, b):
        if not len(b): return
        o = self.find(a, len(b), 'write'); off = a - o.base
        o.data[off:off + len(b)] = b
        if o.sym is not None: self.clear(o, off, len(b))
    def read_refs(self, a, n):
        """List of byte references (ints or (value, k, n))."""
        if not n: return []
        o = self.find(a, n, 'read')
        r = self.refs(o, a - o.base, n) if o.sym is not None else None
        return r if r is not None else list(o.data[a - o.base:a - o.base + n])
    def write_refs(self, a, r):
        if not r: return
        o = self.find(a, len(r), 'write'); off = a - o.base
        if o.sym is not None: self.clear(o, off, len(r))
        for i, q in enumerate(r):
            if q.__class__ is int: o.data[off + i] = q
            else:
                if o.sym is None: o.sym = {}
                o.sym[off + i] = q

def f80_from(b):
    ma = int.from_bytes(b[:8], 'little'); se = int.from_bytes(b[8:10], 'little')
    if se & 0x7fff == 0x7fff: v = math.inf if (ma << 1) & M64 == 0 else math.nan
    else:
        try: v = math.ldexp(ma, (se & 0x7fff) - 16383 - 63)
        except OverflowError: v = math.inf
    return -v if se >> 15 else v
def f80_to(v):
    s = 0x8000 if math.copysign(1, v) < 0 else 0; v = abs(v)
    if v == 0: return bytes(8) + s.to_bytes(2, 'little')
    if v != v: return (0xC000000000000000).to_bytes(8, 'little') + (0x7fff).to_bytes(2, 'little')
    if math.isinf(v): return (1 << 63).to_bytes(8, 'little') + (s | 0x7fff).to_bytes(2, 'little')
    m, e = math.frexp(v)
    return int(math.ldexp(m, 64)).to_bytes(8, 'little') + (s | (e - 1 + 16383)).to_bytes(2, 'little')

def concretize(v, limit=64):
    """Fork over the feasible values of an integer (Python int, z3 term, SymN)."""
    if v.__class__ is int: return v
    if isinstance(v, bool): return int(v)
    E = ex()
    if isinstance(v, Raw):
        t = raw_bv(v); v = t if t is not None else rawint(v)
        if isinstance(v, int): return v
    if isinstance(v, SymB): return int(bool(v))
    if isinstance(v, SymN): return E.concretize_int(v, limit) & M64
    if z3.is_bv(v):
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
    return concretize_z(E, v, limit)
def concretize_z(self, z, limit):
    for _ in range(limit):
        k = len(self.taken)
        if k < len(self.prefix): val, b = self.prefix[k]
        else:
            r, m = self.check([z == z], timeout=5000, want_model=True)
            if r != z3.sat:
                if r == z3.unsat: raise PathAbort()
                raise EngineLimit('cannot concretise an integer')
            val = m.eval(z, model_completion=True).as_long()
            b = True
            if self.check([z != val], timeout=5000)[0] != z3.unsat:
                self.new_alts.append(self.taken + [(val, False)]); self.stats.forks += 1
        self.taken.append((val, b))
        self.pc.append(z == val if b else z != val)
        if b: return val
    raise EngineLimit('more than %d values for an integer' % limit)

# ================================================================ modules and functions
class Module:
    def __init__(self, text):
        self.types, self.tytext, self.globals, self.funcs, self.decls = {}, {}, {}, {}, {}
        self.aliases = {}
        lines = text.split('\n'); i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, t = l.split(' = type ', 1); self.tytext[n] = t
            elif l.startswith('@'): self.globals[l.split(' = ', 1)[0]] = l
            elif l.startswith('declare'):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l); self.decls[m.group(1)] = l
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l)
                self.funcs[m.group(1)] = (l, lines[i+1:j]); i = j
            i += 1
        self.code = {}
        self.gdefs = None
        self.faddr, self.addrf = {}, {}
        for k, n in enumerate(list(self.funcs) + list(self.decls)):
            self.faddr[n] = FUNCS + 16*k; self.addrf[FUNCS + 16*k] = n
        self.nextf = FUNCS + 16*(len(self.faddr) + 16)
    def named(self, x):
        if x not in self.types:
            t = self.tytext[x]
            if t.strip() == 'opaque': self.types[x] = StructT([])
            else: self.types[x] = Parser(self, toks(t)).type()
        return self.types[x]
    def parse_globals(self):
        if self.gdefs is not None: return self.gdefs
        out = []
        for n, l in self.globals.items():
            rest = l.split(' = ', 1)[1]
            rest = re.sub(r',\s*(align \d+|comdat(\([^)]*\))?|section "[^"]*"|!dbg.*)', '', rest)
            t = toks(rest); k = 0; ext = False; const = False; ok = True
            while t[k] not in ('global', 'constant'):
                if t[k] in ('external', 'extern_weak'): ext = True
                if t[k] == 'alias': ok = False; break
                k += 1
            if not ok: continue
            const = t[k] == 'constant'
            p = Parser(self, t); p.i = k + 1
            T = p.type()
            init = None if ext or p.peek() is None else p.value(T)
            out.append((n, T, init, const))
        self.gdefs = out
        return out
    def function(self, n):
        if n not in self.code: self.code[n] = Fn(self, n)
        return self.code[n]

BINI = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
BINF = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}

class Fn:
    """One function translated to a list of Python block functions."""
    def __init__(self, mod, name):
        self.m, self.name = mod, name
        head, body = mod.funcs[name]
        t = toks(re.sub(r'\{\s*$', '', head))
        k = t.index(name)
        self.varargs = False; self.params = []
        p = Parser(mod, t); p.i = k + 1; p.exp('(')
        while not p.acc(')'):
            if p.acc('...'): self.varargs = True; continue
            if p.acc(','): continue
            T = p.type(); 
            while p.peek() not in (',', ')') and p.peek()[0] != '%':
                before = p.i; p.skipattrs()
                if p.i == before: p.i += 1
            nm = p.next() if p.peek()[0] == '%' else '%' + str(len(self.params))
            self.params.append((nm, T))
        # join continuation lines and split into blocks
        ins = []; label = '%' + str(len(self.params)); blocks = [(label, ins)]; insw = False
        first = True
        for l in body:
            if not l.strip() or l.lstrip().startswith(';'): continue
            if l[0] != ' ':
                lab = l.split(':', 1)[0]
                lab = '%' + lab
                if first and not ins: blocks[0] = (lab, ins)
                else:
                    ins = []; blocks.append((lab, ins))
                first = False; continue
            first = False
            s = re.sub(r'(,\s*![\w.]+ ![\w.]+)+\s*$', '', l)
            s = re.sub(r'(,\s*!\w+ !\{[^}]*\})+\s*$', '', s)
            s = re.sub(r'\s;.*$', '', s) if '"' not in s else s
            if insw: ins[-1] += ' ' + s.strip(); insw = ']' not in s; continue
            if l.startswith('   '): ins[-1] += ' ' + s.strip(); continue
            ins.append(s.strip())
            if s.lstrip().startswith('switch') and ']' not in s: insw = True
        self.blocks = blocks
        self.bidx = {lab: i for i, (lab, _) in enumerate(blocks)}
        self.regs = {}
        self.consts = []
        self.calls = 0
        self.gen()
    def reg(self, n):
        if n not in self.regs: self.regs[n] = len(self.regs)
        return self.regs[n]
    # ---- operands
    def op(self, v, T):
        k = v[0]
        if k == 'r': return 'R[%d]' % self.reg(v[1])
        if k == 'c':
            c = v[1]
            if isinstance(c, float):
                if T.n == 32: c = r32(c)
                return repr(c) if math.isfinite(c) else "float('%r')" % c
            return repr(c)
        if k == 'g': return "m.g[%r]" % v[1]
        if k == 'ge':
            off, S = 0, v[1]
            return '(%s+%d)' % (self.op(v[2], PTR), const_gep(S, v[3]))
        if k == 'zero': return '0'
        raise EngineLimit('operand %s' % k)
    def gen(self):
        parsed = []
        phis = {}
        for lab, ins in self.blocks:
            out = []
            for l in ins:
                d = None
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = ', l)
                if m: d = m.group(1); l2 = l[m.end():]
                else: l2 = l
                t = toks(l2)
                if t[0] == 'phi':
                    p = Parser(self.m, t); p.next(); T = p.type(); inc = []
                    while True:
                        p.exp('['); v = p.value(T); p.exp(','); b = p.next(); p.exp(']'); inc.append((v, b))
                        if not p.acc(','): break
                    phis.setdefault(lab, []).append((d, T, inc)); continue
                out.append((d, t, l))
            parsed.append((lab, out))
        self.phis = phis
        src = []
        for bi, (lab, out) in enumerate(parsed):
            b = ['def b%d(R, m, fr):' % bi]
            b += self.filling(lab, [l for d, t, l in out])
            for d, t, l in out:
                try: b += ['  ' + x for x in self.ins(lab, d, t)]
                except EngineLimit as e: raise EngineLimit('%s: %s: %s' % (self.name, l, e))
            if len(b) == 1: b.append('  pass')
            src.append('\n'.join(b))
        self.src = '\n'.join(src)
        ns = dict(ibin=ibin, icmp=icmp, icast=icast, iselect=iselect, fselect=fselect, fbin=fbin, fcmp=fcmp, fneg=fneg, fcast=fcast, fptoint=fptoint, inttofp=inttofp,
                  bitcast=bitcast, CxxThrow=CxxThrow, r32=r32, concretize=concretize, unreachable=unreachable, r_bool=r_bool, geps=geps)
        exec(compile(self.src, '<ir %s>' % self.name, 'exec'), ns)
        self.code = [ns['b%d' % i] for i in range(len(parsed))]
    def filling(self, lab, ls):
        """A loop that only stores one value into consecutive elements: done at once when everything is concrete."""
        ph = self.phis.get(lab)
        if len(ls) != 5 or not ph or len(ph) != 1: return []
        i = ph[0][0]; M = re.match
        g = M(r'(%\S+) = getelementptr (?:inbounds |nuw |nusw )*(?:\[\d+ x (i8|i32|i64)\], ptr (%\S+), i64 0|(i8|i32|i64), ptr (%\S+)), i64 (%\S+)$', ls[0])
        if not g or g.group(6) != i: return []
        w, base = int((g.group(2) or g.group(4))[1:]), g.group(3) or g.group(5)
        st = M(r'store i%d (%%?[-\w.]+), ptr (%%\S+), align' % w, ls[1]); ad = M(r'(%\S+) = add (?:nuw |nsw )*i64 (%\S+), 1$', ls[2])
        cm = M(r'(%\S+) = icmp eq i64 (%\S+), (\d+)$', ls[3]); br = M(r'br i1 (%\S+), label (%\S+), label (%\S+)$', ls[4])
        if not (st and ad and cm and br) or st.group(2) != g.group(1) or ad.group(2) != i or cm.group(2) != ad.group(1) or br.group(1) != cm.group(1) or br.group(3) != lab: return []
        v = st.group(1)
        if v in (i, g.group(1), ad.group(1)) or base in (i, ad.group(1)): return []
        if v[0] == '%': v = 'R[%d]' % self.reg(v)
        elif not v.lstrip('-').isdigit(): return []
        N = int(cm.group(3))
        if N < 64: return []
        return ['  if R[%d] == 0 and m.fillw(R[%d], %s, %d, %d):' % (self.reg(i), self.reg(base), v, w // 8, N), '    R[%d] = %d; R[%d] = %d' % (self.reg(i), N - 1, self.reg(ad.group(1)), N), '    ' + self.edge(lab, br.group(2))]
    def edge(self, frm, to):
        """Assign the phis of `to` for the edge and return its index."""
        ph = self.phis.get(to)
        if not ph: return 'return %d' % self.bidx[to]
        L, Rr = [], []
        for d, T, inc in ph:
            v = next(v for v, b in inc if b == frm)
            L.append('R[%d]' % self.reg(d)); Rr.append(self.op(v, T))
        return '%s = %s; return %d' % (', '.join(L), ', '.join(Rr), self.bidx[to])
    def ins(self, lab, d, t):
        p = Parser(self.m, t); o = p.next()
        D = 'R[%d]' % self.reg(d) if d else None
        if o in ('tail', 'musttail', 'notail'): o = p.next()
        if o in BINI:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): p.next()
            T = p.type(); a = self.op(p.value(T), T); p.exp(','); b = self.op(p.value(T), T)
            if o in ('add', 'sub', 'mul') and T.n > 1:
                s = {'add': '+', 'sub': '-', 'mul': '*'}[o]; mk = (1 << T.n) - 1
                g = ' and '.join('%s.__class__ is int' % x for x in (a, b) if x[0] in 'Rm') or 'True'
                return ['%s = (%s %s %s) & %d if %s else ibin(%r, %s, %s, %d)' % (D, a, s, b, mk, g, o, a, b, T.n)]
            return ['%s = ibin(%r, %s, %s, %d)' % (D, o, a, b, T.n)]
        if o in BINF:
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            T = p.type(); a = self.op(p.value(T), T); p.exp(','); b = self.op(p.value(T), T)
            return ['%s = fbin(%r, %s, %s, %d)' % (D, o, a, b, T.n)]
        if o == 'fneg':
            T = p.type(); return ['%s = fneg(%s)' % (D, self.op(p.value(T), T))]
        if o == 'icmp':
            if p.peek() == 'samesign': p.next()
            c = p.next(); T = p.type(); n = 64 if T.k == 'p' else T.n
            a = self.op(p.value(T), T); p.exp(','); b = self.op(p.value(T), T)
            if c in ('eq', 'ne') and n > 1:
                g = ' and '.join('%s.__class__ is int' % x for x in (a, b) if x[0] in 'Rm') or 'True'
                return ['%s = %s %s %s if %s else icmp(%r, %s, %s, %d)' % (D, a, '==' if c == 'eq' else '!=', b, g, c, a, b, n)]
            return ['%s = icmp(%r, %s, %s, %d)' % (D, c, a, b, n)]
        if o == 'fcmp':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz'): p.next()
            c = p.next(); T = p.type(); a = self.op(p.value(T), T); p.exp(','); b = self.op(p.value(T), T)
            return ['%s = fcmp(%r, %s, %s)' % (D, c, a, b)]
        if o in ('sext', 'zext', 'trunc'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            T = p.type(); a = self.op(p.value(T), T); p.exp('to'); U = p.type()
            return ['%s = icast(%r, %s, %d, %d)' % (D, o, a, T.n, U.n)]
        if o in ('fpext', 'fptrunc'):
            T = p.type(); a = self.op(p.value(T), T); p.exp('to'); U = p.type()
            return ['%s = fcast(%r, %s, %d, %d)' % (D, o, a, T.n, U.n)]
        if o in ('fptosi', 'fptoui'):
            T = p.type(); a = self.op(p.value(T), T); p.exp('to'); U = p.type()
            return ['%s = fptoint(%s, %d, %r)' % (D, a, U.n, o == 'fptosi')]
        if o in ('sitofp', 'uitofp'):
            while p.peek() in ('nneg',): p.next()
            T = p.type(); a = self.op(p.value(T), T); p.exp('to'); U = p.type()
            return ['%s = inttofp(%s, %d, %d, %r)' % (D, a, T.n, U.n, o == 'sitofp')]
        if o in ('ptrtoint', 'inttoptr', 'bitcast'):
            T = p.type(); a = self.op(p.value(T), T); p.exp('to'); U = p.type()
            if T.k == 'f' or U.k == 'f':
                return ['%s = bitcast(%s, *fr.fn.consts[%d])' % (D, a, self.konst((T, U)))]
            if o == 'ptrtoint' and U.n < 64: return ['%s = icast("trunc", %s, 64, %d)' % (D, a, U.n)]
            return ['%s = %s' % (D, a)]
        if o == 'freeze':
            T = p.type(); return ['%s = %s' % (D, self.op(p.value(T), T))]
        if o == 'select':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz'): p.next()
            T = p.type(); c = self.op(p.value(T), T); p.exp(','); T = p.type(); a = self.op(p.value(T), T); p.exp(','); T = p.type(); b = self.op(p.value(T), T)
            if T.k == 'f': return ['%s = fselect(%s, %s, %s)' % (D, c, a, b)]
            return ['%s = iselect(%s, %s, %s, %d)' % (D, c, a, b, T.n if T.k == 'i' else 64)]
        if o == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            S = p.type(); p.exp(','); p.type(); base = self.op(p.value(PTR), PTR); off = 0; terms = []; T = None
            while p.acc(','):
                it = p.type(); v = p.value(it)
                if T is None: sz = S.size; T = S
                elif T.k == 'a': T = T.el; sz = T.size
                elif T.k == 's':
                    j = v[1]; off += T.offs[j]; T = T.el[j]; continue
                else: raise EngineLimit('gep')
                if v[0] == 'c': off += sgn(v[1], it.n) * sz
                else: terms.append((self.op(v, it), sz, it.n))
            return ['%s = geps(%s, %d, %s)' % (D, base, off, ', '.join('(%s, %d, %d)' % x for x in terms))] if terms else [
                '%s = %s + %d if %s.__class__ is int else ibin("add", %s, %d, 64)' % (D, base, off, base, base, off & M64)]
        if o == 'alloca':
            while p.peek() in ('inalloca',): p.next()
            T = p.type(); cnt = '1'; al = T.align
            while p.acc(','):
                if p.acc('align'): al = int(p.next())
                else:
                    it = p.type(); cnt = self.op(p.value(it), it)
            return ['%s = m.salloc(%d * concretize(%s), %d)' % (D, T.size, cnt, al)]
        if o == 'load':
            while p.peek() in ('volatile', 'atomic'): p.next()
            T = p.type(); p.exp(','); p.type(); a = self.op(p.value(PTR), PTR)
            if T.k == 'f': return ['%s = m.ldf(%s, %d)' % (D, a, T.n)]
            if T.k == 'i' and T.n == 1: return ['%s = m.ldi(%s, 1) != 0' % (D, a)]
            if T.k == 'i' and T.n % 8: raise EngineLimit('load of i%d' % T.n)
            if T.k not in 'ip': raise EngineLimit('load of an aggregate')
            return ['%s = m.ldi(%s, %d)' % (D, a, T.n // 8)]
        if o == 'store':
            while p.peek() in ('volatile', 'atomic'): p.next()
            T = p.type(); v = self.op(p.value(T), T); p.exp(','); p.type(); a = self.op(p.value(PTR), PTR)
            if T.k == 'f': return ['m.stf(%s, %s, %d)' % (a, v, T.n)]
            if T.k == 'i' and T.n == 1: return ['m.sti(%s, %s, 1)' % (a, v)]
            if T.k == 'i' and T.n % 8: raise EngineLimit('store of i%d' % T.n)
            if T.k not in 'ip': raise EngineLimit('store of an aggregate')
            return ['m.sti(%s, %s, %d)' % (a, v, T.n // 8)]
        if o == 'br':
            if p.peek() == 'label':
                p.next(); return [self.edge(lab, p.next())]
            T = p.type(); c = self.op(p.value(T), T); p.exp(','); p.exp('label'); x = p.next(); p.exp(','); p.exp('label'); y = p.next()
            return ['if %s:' % c, '  ' + self.edge(lab, x), self.edge(lab, y)]
        if o == 'switch':
            T = p.type(); v = self.op(p.value(T), T); p.exp(','); p.exp('label'); dflt = p.next(); p.exp('[')
            out = ['x = %s' % v]
            while not p.acc(']'):
                T2 = p.type(); c = p.value(T2); p.exp(','); p.exp('label'); tgt = p.next()
                out += ['if icmp("eq", x, %s, %d):' % (self.op(c, T2), T.n), '  ' + self.edge(lab, tgt)]
            return out + [self.edge(lab, dflt)]
        if o == 'ret':
            T = p.type()
            return ['fr.ret = %s' % ('None' if T.k == 'v' else self.op(p.value(T), T)), 'return -1']
        if o == 'unreachable': return ['unreachable(m, fr)']
        if o in ('call', 'invoke'):
            while True:
                x = p.peek()
                if x in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
                else:
                    before = p.i; p.skipattrs()
                    if p.i == before: break
            RT = p.type()
            p.skipattrs()
            callee = p.value(PTR); p.exp('('); args = []
            nargt = []
            while not p.acc(')'):
                if p.acc(','): continue
                T = p.type()
                if T is META:
                    while p.peek() not in (',', ')'): p.next()
                    continue
                p.skipattrs(); v = p.value(T); args.append(self.op(v, T)); nargt.append(T)
            nm = callee[1] if callee[0] == 'g' else None
            if nm and nm.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.experimental.noalias', '@llvm.prefetch')): return []
            ci = self.konst(tuple(nargt))
            call = 'm.call(%s, [%s], fr.fn.consts[%d])' % (repr(nm) if nm else self.op(callee, PTR), ', '.join(args), ci)
            line = '%s = %s' % (D, call) if D else call
            if o == 'call': return [line]
            while p.peek() != 'to': p.next()
            p.exp('to'); p.exp('label'); ok = p.next(); p.exp('unwind'); p.exp('label'); un = p.next()
            return ['try:', '  ' + line, 'except CxxThrow as e:', '  fr.exc = e', '  ' + self.edge(lab, un), self.edge(lab, ok)]
        if o == 'landingpad':
            p.type(); cl = []; cleanup = False
            while p.peek() is not None:
                x = p.next()
                if x == 'cleanup': cleanup = True
                elif x == 'catch':
                    T = p.type(); cl.append(self.op(p.value(T), T))
                elif x == 'filter': raise EngineLimit('filter clause')
            return ['%s = m.landing(fr, [%s], %r)' % (D, ', '.join(cl), cleanup)]
        if o == 'resume':
            T = p.type(); return ['raise fr.exc']
        if o == 'extractvalue':
            T = p.type(); a = self.op(p.value(T), T); p.exp(','); k = p.next()
            return ['%s = %s[%s]' % (D, a, k)]
        if o == 'insertvalue':
            T = p.type(); v = p.value(T); a = self.op(v, T) if v[0] == 'r' else '(0, 0)'; p.exp(','); U = p.type(); b = self.op(p.value(U), U); p.exp(','); k = int(p.next())
            return ['x = list(%s); x[%d] = %s; %s = tuple(x)' % (a, k, b, D)]
        if o == 'fence': return []
        raise EngineLimit('IR instruction ' + o)
    def konst(self, x): self.consts.append(x); return len(self.consts) - 1

def const_gep(S, idx):
    off = 0; T = None
    for it, v in idx:
        if v[0] != 'c': raise EngineLimit('constant gep')
        i = sgn(v[1], it.n)
        if T is None: off += i * S.size; T = S
        elif T.k == 'a': T = T.el; off += i * T.size
        else: off += T.offs[i]; T = T.el[i]
    return off
def geps(base, off, *terms):
    if base.__class__ is int:
        o = off
        for i, sz, n in terms:
            if i.__class__ is not int: break
            if i >> (n - 1): i -= 1 << n
            o += i * sz
        else: return (base + o) & M64
    tot = ibin('add', base, off & M64, 64)
    for i, sz, n in terms:
        if n < 64: i = icast('sext', i, n, 64)
        tot = ibin('add', tot, ibin('mul', i, sz, 64), 64)
    return tot
def r_bool(x): return bool(x)
def unreachable(m, fr):
    ex().prove(False, 'reached code the compiler proved unreachable (%s)' % fr.fn.name); raise PathAbort()

class Frame:
    __slots__ = ('fn', 'ret', 'exc', 'va')
    def __init__(self, fn): self.fn, self.ret, self.exc, self.va = fn, None, None, None

class VM(Memory):
    """A process image: memory, the functions of one linked module and the handlers of its externals."""
    MAXSTEPS = 4000000
    def __init__(self, mod, handlers=()):
        Memory.__init__(self)
        self.mod = mod; self.g = {}; self.h = {}
        for H in handlers: self.h.update(H)
        self.depth = 0; self.steps = 0; self.stack = []
        self.extf, self.extfa = {}, {}
        self.seen = SEEN
        self.vas = {}
        self.where = lambda: demangle(self.stack[-1]) if self.stack else ''
        self.h0 = {}
        for n, a in mod.faddr.items(): self.g[n] = a
        inits = []
        for n, T, init, const in mod.parse_globals():
            o = self.alloc(max(T.size, 1), 'global ' + n, bytearray(max(T.size, 1)))
            self.g[n] = o.base
            if init is not None: inits.append((o, T, init, const))
        for o, T, init, const in inits:
            self._init(o, 0, T, init)
            if const: o.ro = True
    def _init(self, o, off, T, v):
        k = v[0]
        if k == 'zero': return
        if k == 'bytes': o.data[off:off+len(v[1])] = v[1]; return
        if k == 'agg':
            for i, (t, e) in enumerate(v[1]): self._init(o, off + (T.offs[i] if T.k == 's' else i * t.size), t, e)
            return
        if k == 'c':
            c = v[1]
            if T.k == 'f':
                o.data[off:off + T.n//8] = struct.pack('<f', c) if T.n == 32 else struct.pack('<d', c) if T.n == 64 else f80_to(c)
            else: o.data[off:off + T.size] = int(c).to_bytes(T.size, 'little')
            return
        if k == 'g': a = self.g[v[1]] if v[1] in self.g else 0
        elif k == 'ge': a = self.g[v[2][1]] + const_gep(v[1], v[3])
        else: raise EngineLimit('initialiser ' + k)
        o.data[off:off+8] = a.to_bytes(8, 'little')
    def extern(self, name, fn):
        """An address whose call runs the Python function fn(vm, *args)."""
        if name not in self.extf:
            a = self.mod.nextf + 16*len(self.extf); self.extf[name] = a; self.extfa[a] = fn
        return self.extf[name]
    def landing(self, fr, clauses, cleanup):
        e = fr.exc
        for c in clauses:
            if c == 0 or c == e.ti: return (e.obj, e.ti & 0x7fffffff if c else 1)
        if cleanup: return (e.obj, 0)
        raise e
    def call(self, f, args, types=None):
        if f.__class__ is not str:
            a = f if f.__class__ is int else concretize(f)
            if a in self.extfa: return self.extfa[a](self, *args)
            f = self.mod.addrf.get(a)
            if f is None:
                ex().prove(False, 'call through an invalid function pointer (%s)' % self.fname()); raise PathAbort()
        nm = f[1:]
        h = self.h.get(nm)
        if h is not None: return h(self, *args)
        if f not in self.mod.funcs:
            h = BUILTIN.get(nm)
            if h is None: raise EngineLimit('external function %s' % nm)
            return h(self, *args)
        fn = self.mod.function(f)
        return self.run(fn, args, types)
    def run(self, fn, args, types=None):
        self.seen.add(fn.name)
        fr = Frame(fn); R = [None] * (len(fn.regs) + 1)
        np_ = len(fn.params)
        for (n, T), a in zip(fn.params, args):
            if n in fn.regs: R[fn.regs[n]] = a
        if fn.varargs: fr.va = list(zip(args[np_:], (types or ())[np_:]))
        self.stack.append(fn.name)
        if len(self.stack) > 150: raise EngineLimit('recursion too deep')
        sp, nobj = self.snext, len(self.sb)
        code = fn.code; b = 0; steps = 0
        self.frame = fr; old = getattr(self, 'frame_', None)
        self.frame_ = fr
        try:
            while b >= 0:
                b = code[b](R, self, fr)
                steps += 1
                if steps & 1023 == 0:
                    self.steps += 1024
                    if self.steps > self.MAXSTEPS: raise EngineLimit('step limit in %s' % fn.name)
                    E = ex()
                    if E.deadline and __import__('time').time() > E.deadline: raise EngineLimit('deadline')
        finally:
            self.stack.pop(); self.frame_ = old
            del self.sb[nobj:]; del self.so[nobj:]; self.snext = sp; self.last = None
        return fr.ret
    def cfun(self, name, *args): return self.call('@' + name, list(args))
    # ---- small helpers
    def newstr(self, b, name='string'):
        o = self.alloc(len(b) + 1, name, bytearray(b + b'\0')); return o.base
    def buf(self, n, name='buffer', zero=True):
        return self.alloc(n, name, bytearray(n) if zero else None).base

SEEN = set()
_dm = {}
def demangle(n):
    n = n.lstrip('@')
    if not n.startswith('_Z'): return n
    if n not in _dm:
        try: _dm[n] = subprocess.run(['c++filt', n], stdout=subprocess.PIPE).stdout.decode().strip()
        except OSError: _dm[n] = n
    return _dm[n]

# ================================================================ intrinsics and libm
def _fl(f, sf):
    def g(vm, x):
        x = fnum(x)
        if isinstance(x, float):
            if x != x or (math.isinf(x) and f is not abs and f not in (math.exp,)): 
                return x if f in (math.floor, math.ceil, abs) or f is math.sqrt and x > 0 else math.nan
            try: return float(f(x))
            except (ValueError,): return math.nan
            except OverflowError: return math.inf
        return sf(wrap(x))
    return g
def _real(x): return SymN(x.n, x.d)
def _floor(x): return _real(sym.floor(x))
def _ceil(x):
    f = _floor(x)
    return f if bool(x == f) else f + 1
def _sqrt(x):
    if not bool(x >= 0): return math.nan
    return sym.sqrt(x)
def rint_(x): return float(round(x))
def _minmax(op):
    def g(vm, a, b):
        c = icmp({'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op], a, b, g.n)
        return iselect(c, a, b, g.n)
    return g
BUILTIN = {}
for nm, f, sf in (('floor', math.floor, _floor), ('ceil', math.ceil, _ceil), ('fabs', abs, sym.absval), ('sqrt', math.sqrt, _sqrt), ('exp', math.exp, sym.exp),
                  ('cos', math.cos, sym.cos), ('sin', math.sin, sym.sin), ('rint', rint_, lambda x: _real(sym.rnd(x))), ('log', math.log, sym.log)):
    g = _fl(f, sf)
    for k in (nm, nm + 'l'): BUILTIN[k] = g
    BUILTIN[nm + 'f'] = lambda vm, x, g=g: r32(g(vm, x))
    BUILTIN['llvm.%s.f64' % nm] = BUILTIN['llvm.%s.f80' % nm] = g
    BUILTIN['llvm.%s.f32' % nm] = BUILTIN[nm + 'f']
for op in ('smax', 'smin', 'umax', 'umin'):
    for n in (8, 16, 32, 64):
        g = _minmax(op); g.n = n; BUILTIN['llvm.%s.i%d' % (op, n)] = g
def _abs(n):
    def g(vm, x, *_):
        if x.__class__ is int: return abs(sgn(x, n)) & ((1 << n) - 1)
        return iselect(icmp('slt', x, 0, n), ibin('sub', 0, x, n), x, n)
    return g
for n in (8, 16, 32, 64): BUILTIN['llvm.abs.i%d' % n] = _abs(n)
BUILTIN['abs'] = _abs(32); BUILTIN['labs'] = _abs(64)
for n, k in ((32, 'f32'), (64, 'f64'), (80, 'f80')):
    BUILTIN['llvm.fmuladd.' + k] = lambda vm, a, b, c, n=n: fbin('fadd', fbin('fmul', a, b, n), c, n)
def _bswap(n):
    def g(vm, x):
        if x.__class__ is int: return int.from_bytes(x.to_bytes(n//8, 'little'), 'big')
        if isinstance(x, SymN): x = Raw((x, k, n//8) for k in range(n//8))
        if isinstance(x, Raw): return tidy(tuple(reversed(x.p)))
        return simp(z3.Concat(*[z3.Extract(8*k + 7, 8*k, x) for k in range(n//8)]))
    return g
for n in (16, 32, 64): BUILTIN['llvm.bswap.i%d' % n] = _bswap(n)
def _fsh(left, n):
    def g(vm, a, b, c):
        c = concretize(c) % n
        if not left: c = (n - c) % n
        if c == 0: return a if left or True else b
        return ibin('or', ibin('shl', a, c, n), ibin('lshr', b, n - c, n), n)
    return g
for n in (8, 16, 32, 64):
    BUILTIN['llvm.fshl.i%d' % n] = _fsh(True, n)
def memcpy(vm, d, s, n, *_): vm.copy(d, s, n); return d
def memset(vm, d, v, n, *_):
    vm.fill(d, icast('trunc', v, 32, 8) if not isinstance(v, int) and isbv(v) and v.size() == 32 else v, n); return d
for k in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.p0.p0.i32', '__memcpy_chk'): BUILTIN[k] = memcpy
for k in ('memset', 'llvm.memset.p0.i64', 'llvm.memset.p0.i32'): BUILTIN[k] = memset
def malloc(vm, n):
    n = concretize(n)
    if n > 1 << 28: return 0
    return vm.alloc(n, 'heap block').base
def calloc(vm, a, b):
    n = concretize(a) * concretize(b); return vm.alloc(n, 'heap block', bytearray(n)).base
def free(vm, p):
    p = concretize(p)
    if p == 0: return
    o = vm.obj(p)
    if o is None or o.base != p or o.name != 'heap block':
        ex().prove(False, 'memory: free of an invalid pointer (%s)' % vm.fname()); raise PathAbort()
    o.dead = True; vm.last = None
def realloc(vm, p, n):
    if p == 0: return malloc(vm, n)
    o = vm.obj(p); n = concretize(n)
    if o is None or o.base != p: ex().prove(False, 'memory: realloc of an invalid pointer'); raise PathAbort()
    q = malloc(vm, n); vm.copy(q, p, min(n, o.size)); free(vm, p); return q
def strlen(vm, a): return len(vm.cstr(a))
def strcpy(vm, d, s):
    b = vm.read_refs(s, len(vm.cstr(s)) + 1); vm.write_refs(d, b); return d
def strcat(vm, d, s): strcpy(vm, d + len(vm.cstr(d)), s); return d
def strncpy(vm, d, s, n):
    n = concretize(n); out = []
    while len(out) < n:
        c = vm.ldi(s + len(out), 1)
        if c.__class__ is int and c == 0: break
        out.append(c)
    for i in range(n): vm.sti(d + i, out[i] if i < len(out) else 0, 1)
    return d
def cmpstr(vm, a, b, n=None):
    i = 0
    while n is None or i < n:
        x, y = vm.ldi(a + i, 1), vm.ldi(b + i, 1)
        if icmp('ne', x, y, 8): return 1 if icmp('ugt', x, y, 8) else (1 << 32) - 1
        if icmp('eq', x, 0, 8): return 0
        i += 1
    return 0
BUILTIN.update(malloc=malloc, calloc=calloc, free=free, realloc=realloc, strlen=strlen, strcpy=strcpy, strcat=strcat, strncpy=strncpy,
    strcmp=cmpstr, strncmp=lambda vm, a, b, n: cmpstr(vm, a, b, concretize(n)))
def memcmp(vm, a, b, n):
    for i in range(concretize(n)):
        x, y = vm.ldi(a + i, 1), vm.ldi(b + i, 1)
        if icmp('ne', x, y, 8): return 1 if icmp('ugt', x, y, 8) else (1 << 32) - 1
    return 0
def strchr(vm, a, c):
    c &= 255
    while True:
        x = vm.ldi(a, 1)
        if icmp('eq', x, c, 8): return a
        if icmp('eq', x, 0, 8): return 0
        a += 1
BUILTIN.update(memcmp=memcmp, bcmp=memcmp, strchr=strchr, _ZdlPv=free, _Znwm=malloc)
BUILTIN['__cxa_allocate_exception'] = malloc
BUILTIN['__cxa_free_exception'] = lambda vm, p: None
def cxa_begin(vm, p): vm.caught = getattr(vm, 'caught', []) + [p]; return p
def cxa_end(vm): vm.caught = vm.caught[:-1]
def cxa_throw(vm, obj, ti, d):
    if not hasattr(vm, 'thrown'): vm.thrown = {}
    vm.thrown[concretize(obj)] = ti; raise CxxThrow(obj, ti)
def cxa_rethrow(vm):
    p = vm.caught[-1]; raise CxxThrow(p, vm.thrown[concretize(p)])
BUILTIN['__cxa_begin_catch'] = cxa_begin
BUILTIN['__cxa_end_catch'] = cxa_end
BUILTIN['__cxa_rethrow'] = cxa_rethrow
BUILTIN['__cxa_throw'] = cxa_throw
BUILTIN['llvm.eh.typeid.for'] = BUILTIN['llvm.eh.typeid.for.p0'] = lambda vm, p: p & 0x7fffffff
BUILTIN['llvm.assume'] = lambda vm, c: None
def va_start(vm, p):
    k = 0x5000 + len(vm.vas); vm.vas[k] = vm.frame_.va; vm.sti(p, k, 8)
BUILTIN['llvm.va_start'] = BUILTIN['llvm.va_start.p0'] = va_start
BUILTIN['llvm.va_end'] = BUILTIN['llvm.va_end.p0'] = lambda vm, p: None

# ---- formatted text
FMT = re.compile(r'%([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|L|z|q)?([diouxXeEfgGcsp%])')
def cformat(vm, fmt, args):
    """printf on concrete arguments (symbolic ones become a placeholder)."""
    args = list(args); out = b''; i = 0; f = fmt.decode('latin1')
    for m in FMT.finditer(f):
        out += f[i:m.start()].encode('latin1'); i = m.end()
        fl, w, pr, ln, c = m.groups()
        if c == '%': out += b'%'; continue
        if w == '*': w = str(sgn(args.pop(0), 32))
        if pr == '*': pr = str(sgn(args.pop(0), 32))
        if not args: out += b'?'; continue
        a = args.pop(0)
        spec = '%' + fl + (w or '') + ('.' + pr if pr is not None else '')
        if c == 's':
            if pr is not None:
                b = b''
                while len(b) < int(pr):
                    x = concretize(vm.ldi(a + len(b), 1))
                    if x == 0: break
                    b += bytes([x])
            else: b = vm.cstr(a)
            out += (('%' + fl + (w or '') + 's') % b.decode('latin1')).encode('latin1'); continue
        if isinstance(a, (SymN, FB, FX, Raw, SymB)) or isbv(a):
            out += b'<symbolic>' if vm.fmtsym is None else vm.fmtsym(a); continue
        if c == 'c': out += bytes([a & 255])
        elif c in 'di': out += (spec + 'd') .__mod__(sgn(a & (M64 if ln in ('l', 'll', 'q', 'z') else 0xffffffff), 64 if ln in ('l', 'll', 'q', 'z') else 32)).encode()
        elif c in 'ouxX': out += (spec + c).__mod__(a).encode()
        elif c == 'p': out += b'0x%x' % a
        else: out += (spec + c).__mod__(a).encode()
    return out + f[i:].encode('latin1')
VM.fmtsym = None
def printf(vm, fmt, *a): vm.out = getattr(vm, 'out', b'') + cformat(vm, vm.cstr(fmt), a); return 1
def sprintf(vm, d, fmt, *a):
    b = cformat(vm, vm.cstr(fmt), a); vm.write_bytes(d, b + b'\0'); return len(b)
def snprintf(vm, d, n, fmt, *a):
    b = cformat(vm, vm.cstr(fmt), a); n = concretize(n)
    if n: vm.write_bytes(d, b[:n-1] + b'\0')
    return len(b)
BUILTIN.update(printf=printf, sprintf=sprintf, snprintf=snprintf, fprintf=lambda vm, f, *a: printf(vm, *a), puts=lambda vm, s: 1, putchar=lambda vm, c: c,
    fputs=lambda vm, s, f: 1, fflush=lambda vm, f: 0, fwrite=lambda vm, p, s, n, f: n, fputc=lambda vm, c, f: c)
def vsnprintf(vm, d, n, fmt, ap): return snprintf(vm, d, n, fmt, *[a for a, _ in vm.vas[vm.ldi(ap, 8)]])
def vsprintf(vm, d, fmt, ap): return sprintf(vm, d, fmt, *[a for a, _ in vm.vas[vm.ldi(ap, 8)]])
BUILTIN.update(vsnprintf=vsnprintf, vsprintf=vsprintf, vfprintf=lambda vm, f, fmt, ap: 1)
def c_exit(vm, code=0): raise CExit(code)
def c_abort(vm, *a): ex().prove(False, 'the process aborts (%s)' % vm.fname()); raise PathAbort()
BUILTIN.update(exit=c_exit, abort=c_abort, __assert_fail=c_abort, _ZSt9terminatev=c_abort)
