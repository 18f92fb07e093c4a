"""Symbolic numbers and the path explorer.

A symbolic number is a quotient of two polynomials over named atoms (each atom
is one solver variable).  Values computed by functions without a polynomial
form (sin, sqrt, exp, division by something that may vanish, floor, ...) become
new atoms constrained by axioms.  Conditions become solver formulas; asking a
symbolic condition for its truth value forks the path (by re-execution).
All verdicts come from the solver (z3).
"""
import sys, os, math, time, itertools, traceback, random
from fractions import Fraction
import numbers
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

class EngineLimit(Exception):
    """The encoder met something it cannot express."""
class PathAbort(BaseException):
    """The current path is infeasible or cut."""
class BudgetExceeded(Exception):
    pass

CUR = None          # the active Explorer

def ex():
    if CUR is None: raise EngineLimit('symbolic value used outside an exploration')
    return CUR

# ---------------------------------------------------------------- polynomials
# A polynomial is a dict: monomial -> Fraction, a monomial a sorted tuple of
# (atom id, power).
ONE = ()
def P_const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}
def P_atom(a): return {((a, 1),): Fraction(1)}
def P_add(p, q):
    if len(p) < len(q): p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s: r[m] = s
        else: r.pop(m, None)
    return r
def P_scale(p, c):
    if c == 0: return {}
    if c == 1: return p
    return {m: v * c for m, v in p.items()}
def P_neg(p): return {m: -v for m, v in p.items()}
def M_mul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, k in n: d[a] = d.get(a, 0) + k
    return tuple(sorted(d.items()))
MAXTERMS = 60000
def P_mul(p, q):
    if not p or not q: return {}
    if len(p) == 1 and ONE in p: return P_scale(q, p[ONE])
    if len(q) == 1 and ONE in q: return P_scale(p, q[ONE])
    if len(p) * len(q) > MAXTERMS * 10: raise EngineLimit('polynomial too large')
    r = {}
    rules = CUR.rules if CUR is not None else {}
    dirty = False
    for m, c in p.items():
        for n, d in q.items():
            mn = M_mul(m, n)
            s = r.get(mn, 0) + c * d
            if s: r[mn] = s
            else: r.pop(mn, None)
            if rules and not dirty:
                for a, k in mn:
                    if k >= 2 and a in rules: dirty = True; break
    if dirty: r = P_reduce(r, rules)
    if len(r) > MAXTERMS: raise EngineLimit('polynomial too large')
    return r
def P_reduce(p, rules):
    """Rewrite atom**2 by its rule until none applies."""
    todo, out = dict(p), {}
    while todo:
        m, c = todo.popitem()
        for idx, (a, k) in enumerate(m):
            if k >= 2 and a in rules:
                rest = m[:idx] + (((a, k - 2),) if k > 2 else ()) + m[idx+1:]
                for n, d in rules[a].items():
                    mn = M_mul(rest, n)
                    s = todo.get(mn, 0) + c * d
                    if s: todo[mn] = s
                    else: todo.pop(mn, None)
                break
        else:
            s = out.get(m, 0) + c
            if s: out[m] = s
            else: out.pop(m, None)
    return out
def P_isconst(p): return not p or (len(p) == 1 and ONE in p)
def P_cval(p): return p.get(ONE, Fraction(0))
def P_key(p): return tuple(sorted(p.items()))
def P_atoms(p): return {a for m in p for a, _ in m}

# ---------------------------------------------------------------- numbers
def is_num(x):
    return isinstance(x, (int, float, Fraction)) or (isinstance(x, numbers.Real))
NUMERIC = (int, float, Fraction)

def frac(x):
    if isinstance(x, Fraction): return x
    if isinstance(x, (bool, int)): return Fraction(int(x))
    f = float(x)
    if math.isinf(f) or math.isnan(f): raise EngineLimit('non-finite constant %r' % f)
    return Fraction(f)

def wrap(x):
    """Real number (or SymN) -> SymN."""
    if isinstance(x, SymN): return x
    if isinstance(x, SymB): return ite(x, SymN(P_const(1), isint=True), SymN({}, isint=True))
    isint = isinstance(x, numbers.Integral) or type(x).__name__.startswith(('int', 'uint', 'bool'))
    return SymN(P_const(frac(x)), isint=isint)

class SymB:
    """Symbolic condition."""
    __slots__ = ('e',)
    __array_priority__ = 1000
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __init__(self, e): self.e = e
    def __bool__(self): return ex().decide(self.e)
    def __and__(self, o):
        o = toB(o)
        if isinstance(o, bool): return self if o else False
        return SymB(z3.And(self.e, o.e))
    __rand__ = __and__
    def __or__(self, o):
        o = toB(o)
        if isinstance(o, bool): return True if o else self
        return SymB(z3.Or(self.e, o.e))
    __ror__ = __or__
    def __invert__(self): return SymB(z3.Not(self.e))
    def __xor__(self, o):
        o = toB(o)
        if isinstance(o, bool): return ~self if o else self
        return SymB(z3.Xor(self.e, o.e))
    __rxor__ = __xor__
    def __eq__(self, o):
        if isinstance(o, SymB): return SymB(self.e == o.e)
        if isinstance(o, (bool, int)) or type(o).__name__.startswith('bool'):
            return self if o == 1 else (~self if o == 0 else False)
        return wrap(self) == o
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = object.__hash__
    def _n(self): return wrap(self)
    def __add__(self, o): return wrap(self) + o
    __radd__ = __add__
    def __mul__(self, o): return wrap(self) * o
    __rmul__ = __mul__
    def __sub__(self, o): return wrap(self) - o
    def __rsub__(self, o): return o - wrap(self)
    def __lt__(self, o): return wrap(self) < o
    def __gt__(self, o): return wrap(self) > o
    def __le__(self, o): return wrap(self) <= o
    def __ge__(self, o): return wrap(self) >= o
    def logical_not(self): return ~self
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __repr__(self): return 'SymB(%s)' % str(self.e)[:80]
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.ufunc_dispatch(ufunc, method, inputs, kw)

def toB(x):
    if isinstance(x, SymB): return x
    if isinstance(x, SymN): return x != 0 if not x.isconst() else bool(x.cval() != 0)
    if isinstance(x, SymC): return toB(x.re) | toB(x.im) if not isinstance(toB(x.re), bool) else (True if toB(x.re) else toB(x.im))
    return bool(x)

def mkB(e):
    """z3 Bool -> SymB or plain bool if literal."""
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymB(e)

def zB(x):
    """bool/SymB -> z3 expr"""
    if isinstance(x, SymB): return x.e
    return z3.BoolVal(bool(x))

def b_and(*xs):
    r = True
    for x in xs:
        x = toB(x)
        if isinstance(x, bool):
            if not x: return False
        else: r = x if r is True else SymB(z3.And(r.e, x.e))
    return r
def b_or(*xs):
    r = False
    for x in xs:
        x = toB(x)
        if isinstance(x, bool):
            if x: return True
        else: r = x if r is False else SymB(z3.Or(r.e, x.e))
    return r
def b_not(x):
    x = toB(x)
    return (not x) if isinstance(x, bool) else ~x

def known_nn(p):
    """Polynomials that are not negative by their construction (sums and products of squares)."""
    E = CUR
    if all(c >= 0 and all(k % 2 == 0 or a in E.nonneg or E.signs.get(a, 0) > 0 for a, k in m) for m, c in p.items()): return True
    if P_key(p) in E.sq: return True
    c = p.get(ONE)
    if c is not None and c > 0:
        q = dict(p); del q[ONE]
        return P_key(q) in E.sq
    return False
class SymN:
    """Symbolic real or integer: n/d with polynomials n, d (d known nonzero)."""
    __slots__ = ('n', 'd', 'isint')
    __array_priority__ = 1000
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __init__(self, n, d=None, isint=False):
        self.n = n
        self.d = None if d is None or d == {ONE: 1} else d
        if self.d is not None and P_isconst(self.d):
            self.n = P_scale(self.n, 1 / P_cval(self.d)); self.d = None
        elif self.d is not None and not self.n: self.d = None
        self.isint = isint
    # -- inspection
    def isconst(self): return self.d is None and P_isconst(self.n)
    def cval(self): return P_cval(self.n)
    def z(self):
        E = ex()
        n = E.z3poly(self.n)
        return n if self.d is None else n / E.z3poly(self.d)
    def key(self): return (P_key(self.n), None if self.d is None else P_key(self.d))
    def __hash__(self): return hash(self.key())
    def __repr__(self): return 'SymN(%s)' % pstr(self)
    # -- arithmetic
    def _co(self, o):
        if isinstance(o, SymN): return o
        if isinstance(o, SymB): return wrap(o)
        if isinstance(o, SymC) or isinstance(o, complex): return NotImplemented
        if is_num(o): return wrap(o)
        return NotImplemented
    def __add__(self, o):
        if isinstance(o, (float,)) and math.isinf(o): return o
        p = self._co(o)
        if p is NotImplemented: return _csum(self, o)
        i = self.isint and p.isint
        if self.d is None and p.d is None or self.d == p.d:
            r = P_add(self.n, p.n)
            if CUR is not None and CUR.sq and known_nn(self.n) and known_nn(p.n): CUR.sq.add(P_key(r))
            return SymN(r, self.d, isint=i and self.d is None)
        sd, pd = self.d or {ONE: Fraction(1)}, p.d or {ONE: Fraction(1)}
        n = P_add(P_mul(self.n, pd), P_mul(p.n, sd))
        if CUR is not None and CUR.sq and known_nn(self.n) and known_nn(p.n) and known_nn(sd) and known_nn(pd): CUR.sq.add(P_key(n))
        return SymN(n, P_mul(sd, pd))
    __radd__ = __add__
    def __neg__(self): return SymN(P_neg(self.n), self.d, self.isint)
    def __pos__(self): return self
    def __sub__(self, o):
        if isinstance(o, (SymN, int, float, Fraction)): 
            if isinstance(o, float) and math.isinf(o): return -o
            return self + (-wrap(o))
        if isinstance(o, (SymC, complex)): return SymC.of(self) - o
        p = self._co(o)
        if p is NotImplemented: return NotImplemented
        return self + (-p)
    def __rsub__(self, o):
        if isinstance(o, complex): return SymC.of(o) - self
        p = self._co(o)
        if p is NotImplemented: return NotImplemented
        return p + (-self)
    def __mul__(self, o):
        if isinstance(o, (float,)) and math.isinf(o): raise EngineLimit('inf arithmetic')
        p = self._co(o)
        if p is NotImplemented:
            if isinstance(o, (SymC, complex)): return SymC.of(self) * o
            return NotImplemented
        n = P_mul(self.n, p.n)
        d = None
        if CUR is not None and len(n) > 1 and (self.n == p.n or CUR.sq and known_nn(self.n) and known_nn(p.n)): CUR.sq.add(P_key(n))
        if self.d is not None or p.d is not None:
            sd, pd = self.d or {ONE: Fraction(1)}, p.d or {ONE: Fraction(1)}
            # cancel an identical factor
            if self.d is not None and self.d == p.n: return SymN(self.n, p.d)
            if p.d is not None and p.d == self.n: return SymN(p.n, self.d)
            d = P_mul(sd, pd)
        return SymN(n, d, self.isint and p.isint)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, float) and math.isinf(o): return SymN({})
        p = self._co(o)
        if p is NotImplemented:
            if isinstance(o, (SymC, complex)): return SymC.of(self) / o
            return NotImplemented
        return sdiv(self, p)
    def __rtruediv__(self, o):
        if isinstance(o, complex): return SymC.of(o) / self
        p = self._co(o)
        if p is NotImplemented: return NotImplemented
        return sdiv(p, self)
    def __floordiv__(self, o): return divmod_(self, o)[0]
    def __rfloordiv__(self, o): return divmod_(wrap(o), self)[0]
    def __mod__(self, o): return divmod_(self, o)[1]
    # bit operations of (two's complement) integers with a constant
    def _bitk(self, o):
        o = wrap(o)
        if not (self.isint and o.isint and o.isconst()): raise EngineLimit('bit operation on two variables')
        return int(o.cval())
    def __lshift__(self, o): return self * (1 << self._bitk(o))
    def __rshift__(self, o): return self // (1 << self._bitk(o))
    def __and__(self, o):
        k = self._bitk(o)
        if k < 0: return self - (self & ~k)
        r = wrap(0); b = 0
        while k >> b:
            if (k >> b) & 1:
                n = 1
                while (k >> (b + n)) & 1: n += 1
                r = r + ((self // (1 << b)) % (1 << n)) * (1 << b); b += n
            else: b += 1
        return r
    __rand__ = __and__
    def __or__(self, o): return self + self._bitk(o) - (self & o)
    __ror__ = __or__
    def __xor__(self, o): return self + self._bitk(o) - (self & o) * 2
    __rxor__ = __xor__
    def __rmod__(self, o): return divmod_(wrap(o), self)[1]
    def __divmod__(self, o): return divmod_(self, o)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(wrap(o), self)
    def __abs__(self): return absval(self)
    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            v = 0.0
            return {'<': v < o, '<=': v <= o, '>': v > o, '>=': v >= o, '==': False, '!=': True}[op]
        if isinstance(o, (SymC, complex)):
            o = SymC.of(o)
            e = b_and(self == o.re, o.im == 0)
            return e if op == '==' else b_not(e)
        p = self._co(o)
        if p is NotImplemented: return NotImplemented
        return compare(self, p, op)
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r
    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)
    # -- conversions
    def __float__(self):
        if self.isconst(): return float(self.cval())
        raise EngineLimit('float() of a symbolic number')
    def __int__(self):
        if self.isconst(): return int(self.cval())
        return ex().concretize_int(trunc(self))
    def __index__(self):
        if self.isconst():
            if self.cval().denominator == 1: return int(self.cval())
            raise TypeError('not an integer')
        if not self.isint: raise TypeError('symbolic real used as index')
        return ex().concretize_int(self)
    def __complex__(self): raise EngineLimit('complex() of a symbolic number')
    def __round__(self, nd=None):
        if nd: raise EngineLimit('round to digits')
        return rnd(self)
    def __floor__(self): return floor(self)
    def __ceil__(self): return -floor(-self)
    def __trunc__(self): return trunc(self)
    # -- numpy-like protocol
    @property
    def real(self): return self
    @property
    def imag(self): return SymN({}, isint=self.isint)
    def conjugate(self): return self
    conj = conjugate
    shape = ()
    ndim = 0
    size = 1
    def squeeze(self): return self
    def item(self): return self
    def copy(self): return self
    def astype(self, dt): 
        from . import snp
        return snp.cast(self, dt)
    def flatten(self):
        from . import snp
        return snp.mk([self])
    def sum(self, axis=None): return self
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.ufunc_dispatch(ufunc, method, inputs, kw)

def _csum(a, o):
    if isinstance(o, (SymC, complex)): return SymC.of(a) + o
    return NotImplemented

def pstr(x, lim=6):
    def ps(p):
        t = []
        for m, c in list(p.items())[:lim]:
            t.append('%s%s' % (c if c.denominator < 1e6 else float(c), ''.join('*%s%s' % (a, '' if k == 1 else '^%d' % k) for a, k in m)))
        return ' + '.join(t) + ('...' if len(p) > lim else '') or '0'
    return ps(x.n) + ('' if x.d is None else ' / (' + ps(x.d) + ')')

def compare(a, b, op):
    """Comparison of SymN -> bool or SymB."""
    E = ex()
    if a.d is None and b.d is None: diff, den = P_add(a.n, P_neg(b.n)), None
    elif a.d == b.d: diff, den = P_add(a.n, P_neg(b.n)), a.d
    else:
        ad, bd = a.d or {ONE: Fraction(1)}, b.d or {ONE: Fraction(1)}
        diff, den = P_add(P_mul(a.n, bd), P_neg(P_mul(b.n, ad))), P_mul(ad, bd)
    if op not in ('==', '!=') and diff and (den is None or known_nn(den) and E.nonzero(den)):
        for sg, q in ((1, diff), (-1, P_neg(diff))):
            if known_nn(q):
                strict = q.get(ONE, 0) > 0
                if (op == '>=' and sg > 0) or (op == '<=' and sg < 0): return True
                if (op == '<' and sg > 0) or (op == '>' and sg < 0): return False
                if strict: return (op == '>') == (sg > 0) if op in ('>', '<') else (op == '>=') == (sg > 0)
        for x, y, f in ((a, b, 1), (b, a, -1)):         # against a constant
            if y.isconst() and y.cval() <= 0 and known_nn(x.n) and (x.d is None or known_nn(x.d)):
                o = op if f > 0 else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
                if o == '>=': return True
                if o == '<': return False
                if y.cval() < 0: return o == '>'
    diff = P_reduce(diff, E.rules)
    if P_isconst(diff) and (den is None or not diff):
        v = P_cval(diff)
        return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]
    if op in ('==', '!='):
        e = E.z3poly(diff) == 0
        return SymB(e if op == '==' else z3.Not(e))
    if den is not None:
        s = E.sign_of(den)
        if s == 0: # unknown sign: multiply by den again
            diff = P_mul(diff, den)
        elif s < 0: diff = P_neg(diff)
    z = E.z3poly(diff)
    return SymB({'<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[op])

def sdiv(a, b):
    E = ex()
    if b.isconst():
        c = b.cval()
        if c == 0: 
            return E.fresh('div0')
        n = P_scale(a.n, 1 / c)
        if E.sq and c > 0 and known_nn(a.n): E.sq.add(P_key(n))
        return SymN(n, a.d)
    if not a.n: 
        if E.nonzero(b.n): return SymN({})
    if a.d is None and b.d is None and a.n == b.n and E.nonzero(b.n): return SymN(P_const(1))
    if E.nonzero(b.n):
        # a/b = a.n * b.d / (a.d * b.n)
        n = a.n if b.d is None else P_mul(a.n, b.d)
        if b.d is not None and a.d == b.d: n, d = a.n, b.n
        else: d = b.n if a.d is None else P_mul(a.d, b.n)
        # single-monomial cancellation
        n, d = _cancel(n, d)
        return SymN(n, d)
    key = ('div', a.key(), b.key())
    v = E.memo.get(key)
    if v is None:
        v = E.memo[key] = E.fresh('q')
        E.axiom(z3.Implies(zB(b != 0), zB(v * b == a)))
    return v

def _cancel(n, d):
    if len(d) == 1:
        (dm, dc), = d.items()
        if dm and n:
            common = dict(dm)
            for m in n:
                mm = dict(m)
                for a in list(common):
                    common[a] = min(common[a], mm.get(a, 0))
                    if not common[a]: del common[a]
                if not common: break
            if common:
                def sub(m):
                    return tuple((a, k - common.get(a, 0)) for a, k in m if k - common.get(a, 0))
                n = {sub(m): c for m, c in n.items()}
                d = {sub(dm): dc}
    return n, d

def divmod_(a, b):
    """Python floor division / modulo."""
    E = ex(); a, b = wrap(a), wrap(b)
    if a.isconst() and b.isconst():
        q, r = divmod(a.cval(), b.cval())
        return SymN(P_const(q), isint=True), SymN(P_const(r), isint=a.isint and b.isint)
    key = ('divmod', a.key(), b.key())
    if key in E.memo: return E.memo[key]
    if not b.isconst():
        if not bool(b != 0): raise ZeroDivisionError('integer division or modulo by zero')
    elif b.cval() == 0: raise ZeroDivisionError('integer division or modulo by zero')
    q = E.fresh('fq', isint=True)
    r = a - b * q
    if a.isint and b.isint: r.isint = True
    pos = toB(b > 0)
    if pos is True: E.axiom(zB(b_and(r >= 0, r < b)))
    elif pos is False: E.axiom(zB(b_and(r <= 0, r > b)))
    else:
        E.axiom(z3.Implies(pos.e, zB(b_and(r >= 0, r < b))))
        E.axiom(z3.Implies(z3.Not(pos.e), zB(b_and(r <= 0, r > b))))
    E.memo[key] = (q, r)
    return q, r

def floor(a):
    a = wrap(a)
    if a.isconst(): return SymN(P_const(math.floor(a.cval())), isint=True)
    if a.isint: return a
    E = ex()
    if a.d is None:
        # split off the whole part of the constant and integer multiples of integers
        w = {}
        for m, c in a.n.items():
            if not m: k = math.floor(c)
            elif c.denominator == 1 and all(z3.is_int(E.atoms[x]) for x, _ in m): k = c
            else: continue
            if k: w[m] = Fraction(k)
        if w:
            r = floor(SymN(P_add(a.n, P_neg(w)))) + SymN(w, isint=True); r.isint = True
            return r
    key = ('floor', a.key())
    if key not in E.memo:
        q = E.fresh('fl', isint=True)
        E.axiom(zB(b_and(q <= a, a < q + 1)))
        E.memo[key] = q
    return E.memo[key]
def ceil(a): return -floor(-wrap(a))
def allint(a):
    at = ex().atoms
    return a.d is None and all(c.denominator == 1 and all(z3.is_int(at[x]) for x, _ in m) for m, c in a.n.items())
def trunc(a):
    a = wrap(a)
    if a.isconst(): return SymN(P_const(int(a.cval())), isint=True)
    if a.isint: return a
    if allint(a): return SymN(a.n, isint=True)
    if bool(a >= 0): return floor(a)
    return -floor(-a)
def rnd(a):
    """Round half to even."""
    a = wrap(a)
    if a.isconst(): return SymN(P_const(round(a.cval())), isint=True)
    if a.isint: return a
    E = ex(); key = ('round', a.key())
    if key not in E.memo:
        q = E.fresh('rn', isint=True)
        half = Fraction(1, 2)
        E.axiom(zB(b_and(q - half <= a, a <= q + half)))
        k = E.fresh('rk', isint=True)
        tie = b_or(q - half == a, q + half == a)
        E.axiom(z3.Implies(zB(tie), zB(q == k * 2)))
        E.memo[key] = q
    return E.memo[key]

def ite(c, a, b):
    c = toB(c)
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, (SymC, complex)) or isinstance(b, (SymC, complex)):
        a, b = SymC.of(a), SymC.of(b)
        return SymC(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (SymB, bool)) and isinstance(b, (SymB, bool)):
        return mkB(z3.simplify(z3.If(c.e, zB(a), zB(b))))
    if isinstance(a, float) and not math.isfinite(a) or isinstance(b, float) and not math.isfinite(b):
        return a if bool(c) else b
    a, b = wrap(a), wrap(b)
    if a.key() == b.key(): return a
    E = ex(); key = ('ite', c.e.get_id(), a.key(), b.key())
    if E.branch_ms == 0 and key not in E.memo:
        if E.near_valid(c.e): return a
        if E.near_valid(z3.Not(c.e)): return b
    if key not in E.memo:
        v = E.fresh('ite', isint=a.isint and b.isint)
        E.axiom(z3.Implies(c.e, zB(v == a))); E.axiom(z3.Implies(z3.Not(c.e), zB(v == b)))
        E.memo[key] = v; E.keep.append(c.e)
        E.defs[v_atom(v)] = ('ite', c, a, b)
    return E.memo[key]

def v_atom(v):
    (m, c), = v.n.items()
    return m[0][0]

def absval(a):
    if isinstance(a, SymC): return a.__abs__()
    a = wrap(a)
    if a.isconst(): return SymN(P_const(abs(a.cval())), isint=a.isint)
    E = ex()
    if a.d is None:
        if len(a.n) == 1:
            (m, c), = a.n.items()
            if all(k % 2 == 0 or x in E.nonneg or E.signs.get(x, 0) > 0 for x, k in m): return a if c > 0 else -a
        s = E.sign_of(a.n)
        if s > 0: return a
        if s < 0: return -a
    key = ('abs', min(a.key(), (-a).key()))
    if key not in E.memo:
        v = E.fresh('abs', isint=a.isint); E.nonneg.add(v_atom(v))
        E.axiom(zB(v >= 0)); E.axiom(zB(b_or(v == a, v == -a)))
        if a.d is None: E.rules[v_atom(v)] = P_mul(a.n, a.n)
        E.memo[key] = v
    return E.memo[key]

def smax(a, b): return ite(toB(wrap(a) >= b), a, b)
def smin(a, b): return ite(toB(wrap(a) <= b), a, b)

def sqrt(a):
    if isinstance(a, (SymC, complex)): raise EngineLimit('complex sqrt')
    a = wrap(a)
    if a.isconst():
        v = a.cval()
        if v < 0: return ex().fresh('nan')
        rn, rd = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if rn * rn == v.numerator and rd * rd == v.denominator: return SymN(P_const(Fraction(rn, rd)))
    E = ex()
    if a.d is not None:
        # sqrt(n/d) = sqrt(n*d)/d for d > 0
        s = E.sign_of(a.d)
        if s > 0: return sdiv(sqrt(SymN(P_mul(a.n, a.d))), SymN(a.d))
        if s < 0: return sdiv(sqrt(SymN(P_mul(a.n, a.d))), SymN(P_neg(a.d)))
    # perfect square of a single monomial
    if a.d is None and len(a.n) == 1:
        (m, c), = a.n.items()
        if m != ONE and c > 0 and all(k % 2 == 0 for _, k in m):
            root = SymN({tuple((x, k // 2) for x, k in m): Fraction(1)})
            return sqrt(SymN(P_const(c))) * absval(root)
    key = ('sqrt', a.key())
    if key not in E.memo:
        v = E.fresh('sq'); E.nonneg.add(v_atom(v))
        E.axiom(zB(v >= 0))
        nonneg = toB(a >= 0)
        if a.d is None:
            # v**2 == a wherever a >= 0
            if nonneg is True or E.proved(nonneg): 
                E.axiom(z3.And(E.z3poly(P_atom(v_atom(v))) * E.z3poly(P_atom(v_atom(v))) == E.z3poly(a.n)))
                if not (v_atom(v) in P_atoms(a.n)): E.rules[v_atom(v)] = a.n
            else:
                E.axiom(z3.Implies(zB(nonneg), E.z3poly(P_atom(v_atom(v))) * E.z3poly(P_atom(v_atom(v))) == E.z3poly(a.n)))
        else:
            va = E.z3poly(P_atom(v_atom(v)))
            E.axiom(z3.Implies(zB(nonneg), va * va * E.z3poly(a.d) == E.z3poly(a.n)))
        E.memo[key] = v
    return E.memo[key]

def power(a, b):
    if isinstance(a, (SymC, complex)):
        if is_num(b) and int(b) == b and b >= 0:
            r = 1
            for _ in range(int(b)): r = r * a
            return r
        raise EngineLimit('complex power')
    a = wrap(a)
    if isinstance(b, SymN) and b.isconst(): b = b.cval()
    if not isinstance(b, SymN):
        fb = frac(b)
        if fb.denominator == 1:
            k = int(fb)
            if k < 0: return sdiv(SymN(P_const(1)), power(a, -k))
            r = SymN(P_const(1), isint=True); base = a
            while k:
                if k & 1: r = r * base
                k >>= 1
                if k: base = base * base
            if isinstance(b, float) or not a.isint: r = SymN(r.n, r.d)
            return r
        if fb == Fraction(1, 2): return sqrt(a)
    E = ex(); bb = wrap(b)
    if a.isconst() and bb.isconst():
        try: return SymN(P_const(Fraction(float(a.cval()) ** float(bb.cval()))))
        except Exception: raise EngineLimit('power')
    if a.isconst() and a.cval() == 1: return SymN(P_const(1))
    return E.ufun('pow', [a, bb], lambda v: [z3.Implies(zB(a > 0), zB(v > 0)),
        z3.Implies(zB(a == 1), zB(v == 1)), z3.Implies(zB(bb == 0), zB(v == 1)),
        z3.Implies(zB(bb == 1), zB(v == a)), z3.Implies(z3.And(zB(a == 0), zB(bb > 0)), zB(v == 0))])

# ---------------------------------------------------------------- transcendental functions
def exp(a):
    if isinstance(a, (SymC, complex)):
        a = SymC.of(a)
        r = exp(a.re)
        return SymC(r * cos(a.im), r * sin(a.im))
    a = wrap(a)
    if a.isconst() and a.cval() == 0: return SymN(P_const(1))
    neg, k = _signnorm(a)
    E = ex()
    v = E.ufun('exp', [k], lambda v: [zB(v > 0), z3.Implies(zB(k == 0), zB(v == 1)),
        z3.Implies(zB(k > 0), zB(v > 1)), z3.Implies(zB(k < 0), zB(v < 1))], nonzero=1)
    return sdiv(SymN(P_const(1)), v) if neg else v

def log(a):
    a = wrap(a); E = ex()
    if a.isconst() and a.cval() == 1: return SymN({})
    return E.ufun('log', [a], lambda v: [z3.Implies(zB(a == 1), zB(v == 0)), z3.Implies(zB(a > 1), zB(v > 0)),
        z3.Implies(z3.And(zB(a < 1), zB(a > 0)), zB(v < 0))])

def _signnorm(a):
    """(flipped?, +-a) with a canonical leading sign."""
    if not a.n: return False, a
    lead = min(a.n)
    if lead == ONE and len(a.n) > 1: lead = sorted(a.n)[1]
    if a.n[lead] < 0: return True, -a
    return False, a

def _angle_parts(a):
    """Split a SymN into (Fraction of pi, [(angle atom, integer)], rest)."""
    E = ex(); a = wrap(a)
    if a.d is not None: return Fraction(0), [], a
    pi, parts, rest = Fraction(0), [], {}
    for m, c in a.n.items():
        if len(m) == 1 and m[0][1] == 1:
            at = m[0][0]
            if at == 'PI': pi += c; continue
            if at in E.angles and c.denominator == 1 and abs(c) <= 8:
                parts.append((at, int(c))); continue
        rest[m] = c
    return pi, parts, SymN(rest)

def _cs_pi(q):
    """(cos, sin) of q*pi for a rational q."""
    q = q % 2
    t = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
    if q in t: return tuple(SymN(P_const(x)) for x in t[q])
    h = Fraction(1, 2)
    if q.denominator == 4:
        r = sqrt(SymN(P_const(h)))
        sg = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}[q.numerator]
        return r * sg[0], r * sg[1]
    if q.denominator in (3, 6):
        s3 = sqrt(SymN(P_const(Fraction(3, 4))))
        k = int(q * 6)
        c = {1: s3, 2: h, 4: -h, 5: -s3, 7: -s3, 8: -h, 10: h, 11: s3}[k]
        s = {1: h, 2: s3, 4: s3, 5: h, 7: -h, 8: -s3, 10: -s3, 11: -h}[k]
        return wrap(c), wrap(s)
    return None

def _cmul(a, b): return a[0]*b[0] - a[1]*b[1], a[0]*b[1] + a[1]*b[0]

def cossin(a):
    """(cos a, sin a) using the addition formulas over the known angle atoms."""
    E = ex(); a = wrap(a)
    if a.isconst() and a.cval() == 0: return SymN(P_const(1)), SymN({})
    key = ('cs', a.key())
    if key in E.memo: return E.memo[key]
    for at in P_atoms(a.n) if a.d is None else ():
        df = E.defs.get(at)
        if df is not None and df[0] == 'ite' and ((at, 1),) in a.n and not any(len(m) > 1 and any(x == at for x, _ in m) for m in a.n):
            k = a.n[((at, 1),)]; base = SymN({m: c for m, c in a.n.items() if m != ((at, 1),)})
            u, w = cossin(base + df[2] * k), cossin(base + df[3] * k)
            r = (ite(df[1], u[0], w[0]), ite(df[1], u[1], w[1]))
            E.memo[key] = r
            return r
    pi, parts, rest = _angle_parts(a)
    r = (SymN(P_const(1)), SymN({}))
    cp = _cs_pi(pi)
    if cp is None: rest = rest + SymN({(('PI', 1),): pi})
    else: r = _cmul(r, cp)
    for at, k in parts:
        c, s = E.angles[at]
        if k < 0: s, k = -s, -k
        for _ in range(k): r = _cmul(r, (c, s))
    if rest.n:
        neg, k = _signnorm(rest)
        kk = ('opaqueangle', k.key())
        if kk not in E.memo:
            c, s = E.cs_atoms('w')
            E.memo[kk] = (c, s); E.defs[v_atom(s)] = ('sin', k); E.defs[v_atom(c)] = ('cos', k)
            E.axiom(z3.Implies(zB(k == 0), zB(b_and(c == 1, s == 0))))
        c, s = E.memo[kk]
        r = _cmul(r, (c, -s if neg else s))
    E.memo[key] = r
    return r
def cos(a):
    if isinstance(a, SymC): raise EngineLimit('complex cos')
    return cossin(a)[0]
def sin(a):
    if isinstance(a, SymC): raise EngineLimit('complex sin')
    return cossin(a)[1]

def pi_(): return SymN(P_atom('PI'))

def arctan2(y, x):
    E = ex(); y, x = wrap(y), wrap(x)
    if y.isconst() and x.isconst() and y.cval() == 0: return SymN({}) if x.cval() >= 0 else pi_()
    key = ('atan2', y.key(), x.key())
    if key in E.memo: return E.memo[key]
    v = E.angle('at')
    c, s = E.angles[v_atom(v)]
    r = sqrt(x*x + y*y)
    PI = pi_()
    E.axiom(zB(b_and(v > -PI, v <= PI)))
    E.axiom(zB(r * c == x)); E.axiom(zB(r * s == y))
    E.axiom(z3.Implies(zB(b_and(x == 0, y == 0)), zB(b_and(v == 0))))
    # linear sign facts (implied, but they keep the queries out of nonlinear arithmetic)
    E.axiom(z3.Implies(zB(y > 0), zB(b_and(v > 0, v < PI))))
    E.axiom(z3.Implies(zB(y < 0), zB(v < 0)))
    E.axiom(z3.Implies(zB(b_and(y == 0, x > 0)), zB(v == 0)))
    E.axiom(z3.Implies(zB(b_and(y == 0, x < 0)), zB(v == PI)))
    E.axiom(z3.Implies(zB(x > 0), zB(b_and(v * 2 > -PI, v * 2 < PI))))
    E.axiom(z3.Implies(zB(b_and(x == 0, y > 0)), zB(v * 2 == PI)))
    E.axiom(z3.Implies(zB(b_and(x == 0, y < 0)), zB(v * 2 == -PI)))
    E.axiom(z3.Implies(zB(b_and(x < 0, y >= 0)), zB(v * 2 > PI)))
    E.axiom(z3.Implies(zB(b_and(x < 0, y < 0)), zB(v * 2 < -PI)))
    E.memo[key] = v
    return v

def arcsin(x):
    E = ex(); x = wrap(x)
    neg, k = _signnorm(x)
    if neg: return -arcsin(k)
    key = ('asin', x.key())
    if key not in E.memo:
        v = E.angle('as'); c, s = E.angles[v_atom(v)]; PI = pi_()
        E.axiom(zB(b_and(v * 2 >= -PI, v * 2 <= PI)))
        dom = zB(b_and(x >= -1, x <= 1))
        E.axiom(z3.Implies(dom, zB(b_and(s == x, c >= 0))))
        E.axiom(z3.Implies(dom, zB(b_and(toB(SymB(zB(x > 0) == zB(v > 0))), toB(SymB(zB(x < 0) == zB(v < 0)))))))
        E.memo[key] = v
    return E.memo[key]
def arccos(x): return pi_() * Fraction(1, 2) - arcsin(x)

# ---------------------------------------------------------------- complex
class SymC:
    __slots__ = ('re', 'im')
    __array_priority__ = 1000
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __init__(self, re, im): self.re, self.im = wrap(re), wrap(im)
    @staticmethod
    def of(x):
        if isinstance(x, SymC): return x
        if isinstance(x, complex) or type(x).__name__ in ('complex64', 'complex128', 'clongdouble'):
            return SymC(float(x.real), float(x.imag))
        return SymC(x, 0)
    def _co(self, o):
        if isinstance(o, (SymC, SymN, SymB, complex)) or is_num(o) or type(o).__name__.startswith('complex'): return SymC.of(o)
        return None
    def __add__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else SymC(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __neg__(self): return SymC(-self.re, -self.im)
    def __pos__(self): return self
    def __sub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else SymC(self.re - o.re, self.im - o.im)
    def __rsub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else SymC(o.re - self.re, o.im - self.im)
    def __mul__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else SymC(self.re*o.re - self.im*o.im, self.re*o.im + self.im*o.re)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = self._co(o)
        if o is None: return NotImplemented
        if o.im.isconst() and o.im.cval() == 0: return SymC(self.re / o.re, self.im / o.re)
        d = o.re*o.re + o.im*o.im
        n = self * o.conjugate()
        return SymC(n.re / d, n.im / d)
    def __rtruediv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o / self
    def __pow__(self, o): return power(self, o)
    def __abs__(self): return sqrt(self.re*self.re + self.im*self.im)
    def __eq__(self, o):
        o = self._co(o)
        return False if o is None else b_and(self.re == o.re, self.im == o.im)
    def __ne__(self, o): return b_not(self == o)
    def __bool__(self): return bool(b_or(self.re != 0, self.im != 0))
    def __hash__(self): return hash((self.re, self.im))
    def __complex__(self): raise EngineLimit('complex() of a symbolic number')
    def __repr__(self): return 'SymC(%r, %r)' % (self.re, self.im)
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    shape = (); ndim = 0; size = 1
    def squeeze(self): return self
    def conjugate(self): return SymC(self.re, -self.im)
    conj = conjugate
    def astype(self, dt):
        from . import snp
        return snp.cast(self, dt)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.ufunc_dispatch(ufunc, method, inputs, kw)

def is_sym(x): return isinstance(x, (SymN, SymC, SymB))

# ---------------------------------------------------------------- explorer
class Stats:
    def __init__(self):
        self.queries = 0; self.solver_s = 0.0; self.paths = 0; self.forks = 0
        self.proved = 0; self.trivial = 0; self.unknown = 0; self.sat = 0; self.reach = 0
    def add(self, o):
        for k, v in vars(o).items(): setattr(self, k, getattr(self, k) + v)

class Unproved(Exception):
    """An obligation was refuted or not decided."""
    def __init__(self, msg, model, verdict, values):
        Exception.__init__(self, msg); self.model, self.verdict, self.values = model, verdict, values

class Explorer:
    """Depth-first exploration by re-execution."""
    def __init__(self, max_paths=4000, timeout_ms=8000, deadline=None, stats=None, branch_ms=3000):
        self.branch_ms = branch_ms
        self.max_paths, self.timeout_ms, self.deadline = max_paths, timeout_ms, deadline
        self.stats = stats or Stats()
        self.failures = []; self.limits = []
        self.path_cb = None
        self.truncated = False
        self._z3cache = {}
        self.samples = []
        self.extra = {}
        self.raised = []
    # ----- path life cycle
    def _reset(self, prefix):
        self.prefix, self.taken, self.new_alts = list(prefix), [], []
        self.axioms, self.pc, self.pre = [], [], []
        self.owner = {}; self.pins = {}; self.refined = 0
        self.rules, self.memo, self.angles, self.defs = {}, {}, {}, {}
        self.atoms, self.counter, self.keep = {}, itertools.count(), []
        self.inputs = {}
        self.varcache = {}; self.lincache = {}
        self.signs = {}; self.nonneg = set(); self.bounds = {}; self.sq = set()
        self.trace = []; self.tokens = {}; self.extra_addr = None
        PI = z3.Real('PI')
        self.atoms['PI'] = PI
        self.axioms += [PI > z3.RealVal('3.14159265'), PI < z3.RealVal('3.14159266')]
        self.signs['PI'] = 1
    def run(self, fn):
        """Run fn() over every feasible path."""
        global CUR
        # one stack per combination of choices, served in turn, so that a cut-off exploration still sees every combination
        stacks, served = {(): [[]]}, {}
        while stacks:
            if self.stats.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.truncated = True; break
            key = min(stacks, key=lambda k: served.get(k, 0))
            prefix = stacks[key].pop(); served[key] = served.get(key, 0) + 1
            if not stacks[key]: del stacks[key]
            self._reset(prefix)
            old, CUR = CUR, self
            try:
                self.stats.paths += 1
                fn()
                if self.path_cb: self.path_cb(self)
            except PathAbort: pass
            except EngineLimit as e:
                if self.branch_ms == 0 and self.feasible() is False: pass       # the path does not exist
                else: self.limits.append(str(e))
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            finally:
                CUR = old
            for a in self.new_alts: stacks.setdefault(tuple(x for x in a if type(x) is int), []).append(a)
        return self
    # ----- atoms
    def fresh(self, base, isint=False):
        name = '%s!%d' % (base, next(self.counter))
        self.atoms[name] = z3.Int(name) if isint else z3.Real(name)
        return SymN(P_atom(name), isint=isint)
    def input(self, name, isint=False, lo=None, hi=None):
        assert name not in self.atoms, name
        self.atoms[name] = z3.Int(name) if isint else z3.Real(name)
        v = SymN(P_atom(name), isint=isint)
        self.inputs[name] = ('int' if isint else 'real', v)
        if lo is not None: self.assume(v >= lo)
        if hi is not None: self.assume(v <= hi)
        if lo is not None and hi is not None: self.bounds[name] = (lo, hi)
        if lo is not None and lo >= 0:
            if lo > 0: self.signs[name] = 1
        return v
    def cs_atoms(self, base):
        c, s = self.fresh(base + 'c'), self.fresh(base + 's')
        self.rules[v_atom(c)] = P_add(P_const(1), P_neg(P_mul(s.n, s.n)))
        zc, zs = self.atoms[v_atom(c)], self.atoms[v_atom(s)]
        self.axiom(zc*zc + zs*zs == 1)
        self.axiom(z3.And(zc >= -1, zc <= 1, zs >= -1, zs <= 1))
        return c, s
    def angle(self, base, name=None):
        v = self.fresh(base) if name is None else None
        if name is not None:
            self.atoms[name] = z3.Real(name); v = SymN(P_atom(name))
        c, s = self.cs_atoms(name or base)
        a = v_atom(v)
        self.angles[a] = (c, s)
        PI, za, zc, zs = self.atoms['PI'], self.atoms[a], self.atoms[v_atom(c)], self.atoms[v_atom(s)]
        # quadrant facts tying the angle to its cosine and sine
        self.axiom(z3.Implies(z3.And(za > 0, za < PI), zs > 0))
        self.axiom(z3.Implies(z3.And(za < 0, za > -PI), zs < 0))
        self.axiom(z3.Implies(z3.And(za > PI, za < 2*PI), zs < 0))
        self.axiom(z3.Implies(z3.And(2*za > -PI, 2*za < PI), zc > 0))
        self.axiom(z3.Implies(z3.And(2*za > PI, 2*za < 3*PI), zc < 0))
        self.axiom(z3.Implies(z3.And(2*za < -PI, 2*za > -3*PI), zc < 0))
        self.axiom(z3.Implies(za == 0, z3.And(zc == 1, zs == 0)))
        self.axiom(z3.Implies(za == PI, z3.And(zc == -1, zs == 0)))
        self.axiom(z3.Implies(2*za == PI, z3.And(zc == 0, zs == 1)))
        self.axiom(z3.Implies(2*za == -PI, z3.And(zc == 0, zs == -1)))
        return v
    def input_angle(self, name, lo=None, hi=None):
        v = self.angle(name, name=name)
        self.inputs[name] = ('angle', v)
        if lo is not None: self.assume(v >= lo)
        if hi is not None: self.assume(v <= hi)
        return v
    def input_bool(self, name):
        e = z3.Bool(name)
        self.inputs[name] = ('bool', SymB(e))
        return SymB(e)
    def ufun(self, name, args, axf, nonzero=0):
        args = [wrap(a) for a in args]
        key = ('uf', name) + tuple(a.key() for a in args)
        if key not in self.memo:
            v = self.fresh(name)
            self.memo[key] = v
            if nonzero: self.signs[v_atom(v)] = nonzero
            n0 = len(self.axioms)
            for a in axf(v): self.axiom(a)
            self.defs[v_atom(v)] = (name,) + tuple(args)
            # functional consistency with earlier applications
            reg = self.memo.setdefault(('ufreg', name), [])
            for args2, v2 in reg[-12:]:
                conds = [zB(a == b) for a, b in zip(args, args2)]
                if not any(z3.is_false(c) for c in conds):
                    self.axiom(z3.Implies(z3.And(*conds), zB(v == v2)))
            reg.append((args, v))
            if name == 'exp':       # total function: its facts say nothing about the arguments
                for a in self.axioms[n0:]: self.owner[a.get_id()] = v_atom(v)
        return self.memo[key]
    def axiom(self, e):
        if isinstance(e, SymB): e = e.e
        if isinstance(e, bool): e = z3.BoolVal(e)
        if not z3.is_true(e): self.axioms.append(e)
    def assume(self, c):
        c = toB(c)
        if c is True: return
        if c is False: raise PathAbort()
        self.pre.append(c.e)
    def z3poly(self, p):
        terms = []
        for m, c in p.items():
            f = [self.atoms[a] if k == 1 else None for a, k in m] 
            prod = None
            for a, k in m:
                x = self.atoms[a]
                for _ in range(k): prod = x if prod is None else prod * x
            if prod is None: terms.append(z3.RealVal(c) if c.denominator != 1 else z3.IntVal(c.numerator)); continue
            if c == 1: terms.append(prod)
            elif c.denominator == 1: terms.append(z3.IntVal(c.numerator) * prod if prod.is_int() else z3.RealVal(c.numerator) * prod)
            else: terms.append(z3.RealVal(c) * (z3.ToReal(prod) if prod.is_int() else prod))
        if not terms: return z3.IntVal(0)
        if len(terms) == 1: return terms[0]
        if any(not t.is_int() for t in terms): terms = [z3.ToReal(t) if t.is_int() else t for t in terms]
        return z3.Sum(terms)
    # ----- sign / nonzero knowledge
    def sign_of(self, p):
        """+1 / -1 if the polynomial is known positive / negative, else 0."""
        if P_isconst(p): return (P_cval(p) > 0) - (P_cval(p) < 0)
        if len(p) == 1:
            (m, c), = p.items(); s = 1 if c > 0 else -1
            for a, k in m:
                if k % 2 == 0 and (self.signs.get(a) or self.memo.get(('nz', P_key(P_atom(a))))): continue
                if not self.signs.get(a): s = 0; break
                s *= self.signs[a]
            if s: return s
        key = ('sign', P_key(p))
        if key in self.memo: return self.memo[key]
        z = self.z3poly(p)
        r = 0
        if self._valid(z > 0): r = 1
        elif self._valid(z < 0): r = -1
        self.memo[key] = r
        return r
    def nonzero(self, p):
        if P_isconst(p): return P_cval(p) != 0
        if len(p) == 1:
            (m, c), = p.items()
            if all(self.signs.get(a) or self.memo.get(('nz', P_key(P_atom(a)))) for a, _ in m): return True
            if len(m) > 1 or m and m[0][1] > 1: return all(self.nonzero(P_atom(a)) for a, _ in m)
        key = ('nz', P_key(p))
        if key not in self.memo: self.memo[key] = self._valid(self.z3poly(p) != 0)
        return self.memo[key]
    def proved(self, b):
        b = toB(b)
        if isinstance(b, bool): return b
        return self._valid(b.e)
    def near_valid(self, e):
        """e follows from the facts about its own variables."""
        g = z3.Not(e); vs = self._vars(g)
        near = [a for a in self.pre + self.axioms + self.pc if self._vars(a) - {'PI'} <= vs]
        key = (g.get_id(),) + tuple(sorted(a.get_id() for a in near))
        if key not in self._z3cache:
            t0 = time.time(); self.stats.queries += 1
            s = z3.Solver(); s.set('timeout', 300); s.add(*near); s.add(g)
            r = s.check(); self.stats.solver_s += time.time() - t0
            self._z3cache[key] = (r, g, near)
        return self._z3cache[key][0] == z3.unsat
    def _valid(self, e, timeout=1000):
        # facts about the same variables first, then everything connected
        g = z3.Not(e); vs = self._vars(g)
        near = [a for a in self.pre + self.axioms + self.pc if self._vars(a) - {'PI'} <= vs]
        key = (g.get_id(),) + tuple(sorted(a.get_id() for a in near))
        if key in self._z3cache: r = self._z3cache[key][0]; t0 = None
        else: t0 = time.time(); self.stats.queries += 1
        if t0 is not None:
            s = z3.Solver(); s.set('timeout', 300); s.add(*near); s.add(g)
            r = s.check(); self.stats.solver_s += time.time() - t0
            self._z3cache[key] = (r, g, near)
        if r == z3.unsat: return True
        cone = self._cone([g])
        if len(cone) > 150: return False
        key = (g.get_id(),) + tuple(sorted(a.get_id() for a in cone)) + (timeout,)
        if key not in self._z3cache: self._z3cache[key] = (self.check([g], timeout=timeout, retry=False)[0], g, cone)
        return self._z3cache[key][0] == z3.unsat
    # ----- solver
    def _vars(self, e):
        k = e.get_id()
        if k in self.varcache: return self.varcache[k][1]
        out, todo, seen = set(), [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            todo.extend(x.children())
        self.varcache[k] = (e, out)
        return out
    def _linear(self, e):
        """No products, quotients or powers of variables anywhere in the formula (bit-vectors: not claimed)."""
        k = e.get_id()
        if k in self.lincache: return self.lincache[k][1]
        ok, todo, seen = True, [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_bv(x): ok = False; break
            d = x.decl().kind()
            if d == z3.Z3_OP_MUL and sum(1 for c in x.children() if not self._numeral(c)) > 1 or d in (z3.Z3_OP_POWER, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM): ok = False; break
            todo.extend(x.children())
        self.lincache[k] = (e, ok)
        return ok
    def _numeral(self, c): return z3.is_rational_value(c) or z3.is_int_value(c) or z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL) and self._numeral(c.children()[0])
    def _cone(self, goals):
        """Assertions transitively sharing variables with the goals."""
        have = set()
        for g in goals: have |= self._vars(g)
        have.discard('PI')
        pool = [(a, self._vars(a)) for a in self.pre + self.axioms + self.pc]
        chosen, changed = [], True; own = self.owner
        while changed:
            changed = False; rest = []
            for a, v in pool:
                o = own.get(a.get_id()) if own else None
                if o in have if o is not None else ((v - {'PI'}) & have or v <= {'PI'}):
                    chosen.append(a)
                    new = v - have - {'PI'}
                    if new: have |= new; changed = True
                else: rest.append((a, v))
            pool = rest
        return chosen
    def check(self, goals, timeout=None, want_model=False, retry=True):
        """Satisfiability of assumptions and goals."""
        t0 = time.time()
        timeout = timeout or self.timeout_ms
        self.stats.queries += 1
        try:
            asserts = self._cone(goals) if not want_model or want_model == 'near' else self.pre + self.axioms + self.pc
            # first only linear-looking direct facts
            direct = set()
            for g in goals: direct |= self._vars(g)
            s = z3.SimpleSolver(); s.set('timeout', min(1500, int(timeout))); s.set('arith.nl', False)     # products as opaque terms
            s.add(*asserts); s.add(*goals)
            r = s.check()
            if r == z3.unsat: return z3.unsat, None
            if r == z3.sat and all(self._linear(a) for a in asserts) and all(self._linear(a) for a in goals): return r, s.model()
            s = z3.Solver(); s.set('timeout', int(timeout))
            s.add(*asserts); s.add(*goals)
            r = s.check()
            if r == z3.unknown and retry:
                s2 = z3.Tactic('qfnra-nlsat').solver() if self._pure_real(asserts + goals) else z3.SolverFor('AUFNIRA')
                s2.set('timeout', int(timeout)); s2.add(*asserts); s2.add(*goals)
                r2 = s2.check()
                if r2 != z3.unknown: r, s = r2, s2
            m = s.model() if r == z3.sat else None
            return r, m
        finally:
            self.stats.solver_s += time.time() - t0
            if os.environ.get('VERIF_DEBUG') == '2' and time.time() - t0 > 1:
                sys.stderr.write('SLOW %.1f s %s\n' % (time.time() - t0, str(goals)[:300])); traceback.print_stack(limit=6)
    def _pure_real(self, es):
        for e in es:
            for v in self._vars(e):
                a = self.atoms.get(v)
                if a is None or a.is_int(): return False
        return True
    # ----- decisions
    def decide(self, e):
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        k = len(self.taken)
        if k < len(self.prefix):
            b = self.prefix[k]
        elif self.branch_ms == 0:       # both sides, unless this very condition was decided before (obligations still see the whole path)
            ne = z3.Not(e); vs = self._vars(e)
            near = [a for a in self.pre + self.axioms + self.pc if self._vars(a) <= vs]
            key = ('lazy', e.get_id()) + tuple(sorted(a.get_id() for a in near))
            if key not in self._z3cache:
                r = []; t0 = time.time()
                for g in (e, ne):
                    s = z3.SimpleSolver(); s.set('timeout', 100); s.set('arith.nl', False); s.add(*near); s.add(g); self.stats.queries += 1
                    r.append(s.check() == z3.unsat)
                self._z3cache[key] = (r, e, ne, near); self.stats.solver_s += time.time() - t0
            r = self._z3cache[key][0]
            if r[1]: b = True
            elif r[0]: b = False
            else:
                b = True; self.new_alts.append(self.taken + [False]); self.stats.forks += 1
        else:
            rt = self.check([e], timeout=self.branch_ms, retry=self.branch_ms >= 1000)[0]
            if rt == z3.unsat: b = False; forced = True
            else:
                rf = self.check([z3.Not(e)], timeout=self.branch_ms, retry=self.branch_ms >= 1000)[0]
                if rf == z3.unsat: b = True; forced = True
                else:
                    b = True; forced = False
                    self.new_alts.append(self.taken + [False])
                    self.stats.forks += 1
        self.taken.append(b)
        if b and z3.is_and(e): self.pc.extend(e.children())
        elif not b and z3.is_or(e): self.pc.extend(z3.Not(c) for c in e.children())
        else: self.pc.append(e if b else z3.Not(e))
        if b and z3.is_eq(e):
            p, q = e.children()
            if z3.is_int_value(p): p, q = q, p
            if z3.is_int_value(q) and z3.is_const(p) and z3.is_int(p): self.pins[p.decl().name()] = q.as_long()
        return b
    def pinned(self, x):
        """Value of an integer all of whose variables are fixed on this path, or None."""
        if x.d is not None or not x.n: return None
        tot = 0; P = self.pins
        for m, c in x.n.items():
            for a, k in m:
                if a not in P: return None
                c = c * P[a] ** k
            tot += c
        return int(tot) if tot == int(tot) else None
    def choose(self, n):
        """Nondeterministic choice among n alternatives (a fork, no condition)."""
        k = len(self.taken)
        if k < len(self.prefix): b = self.prefix[k]
        else:
            b = 0
            for i in range(n - 1, 0, -1): self.new_alts.append(self.taken + [i])
            self.stats.forks += n - 1
        self.taken.append(b)
        return b
    def concretize_int(self, v, limit=64):
        """Fork over every feasible value of an integer."""
        if v.isconst(): return int(v.cval())
        if self.pins:
            w = self.pinned(v)
            if w is not None: return w
        z = v.z()
        for _ in range(limit):
            k = len(self.taken)
            if k < len(self.prefix):
                val, b = self.prefix[k]
            else:
                r, m = self.check([z == z], timeout=5000, want_model='near')
                if r != z3.sat: 
                    if r == z3.unsat: raise PathAbort()
                    raise EngineLimit('cannot concretise an integer')
                val = m.eval(z, model_completion=True)
                val = val.as_long() if z3.is_int_value(val) else int(val.as_fraction())
                b = True
                if self.check([z != val], timeout=5000)[0] != z3.unsat:
                    self.new_alts.append(self.taken + [(val, False)]); self.stats.forks += 1
            self.taken.append((val, b))
            self.pc.append(z == val if b else z != val)
            if b:
                var = [(m, c) for m, c in v.n.items() if m]
                if v.d is None and len(var) == 1 and len(var[0][0]) == 1 and var[0][0][0][1] == 1:
                    w = (val - v.n.get((), 0)) / Fraction(var[0][1])
                    if w.denominator == 1 and z3.is_int(self.atoms[var[0][0][0][0]]): self.pins[var[0][0][0][0]] = int(w)
                return val
        raise EngineLimit('more than %d values for an integer' % limit)
    def feasible(self):
        try: r = self.check([z3.BoolVal(True)], timeout=5000, want_model=True)[0]
        except EngineLimit: return None
        return None if r == z3.unknown else r == z3.sat
    # ----- obligations
    def reachable(self):
        self.stats.reach += 1
        r, m = self.check([z3.BoolVal(True)], timeout=2500, want_model=True, retry=False)
        if r != z3.unknown: return r, m
        # help the solver by fixing inputs
        rng = random.Random(len(self.atoms))
        for attempt in range(2):
            fix = []
            for name, (kind, v) in self.inputs.items():
                if kind == 'real': fix.append(self.atoms[name] == z3.RealVal(Fraction(rng.randint(-40, 40), 16)) if attempt == 0 else self.atoms[name] * 1 == z3.RealVal(Fraction(rng.randint(1, 9), 64)))
                elif kind == 'angle':
                    t = Fraction(rng.randint(-8, 8), 8); c, s = self.angles[name]
                    fix += [self.atoms[v_atom(c)] == z3.RealVal((1 - t*t) / (1 + t*t)), self.atoms[v_atom(s)] == z3.RealVal(2*t / (1 + t*t))]
            # keep the fixings compatible with the stated bounds
            s = z3.Solver(); s.set('timeout', 1000); near = [a for a in self.pre if len(self._vars(a)) <= 1]; s.add(*near)
            keep = [f for f in fix if s.check(f) == z3.sat]
            r, m = self.check(keep, timeout=4000, want_model=True, retry=False)
            if r == z3.sat: return r, m
        return z3.unknown, None
    def prove(self, cond, msg):
        """Record the obligation that cond holds on this path."""
        cond = toB(cond)
        if cond is True:
            self.stats.trivial += 1; self.stats.proved += 1
            return True
        if cond is False: neg = z3.BoolVal(True)
        else: neg = z3.Not(cond.e)
        r, m = self.check([neg])
        if r == z3.unsat:
            self.stats.proved += 1
            return True
        if r == z3.sat:
            r2, m2 = self.check([neg], want_model=True)
            # sharpen what is known about angles and exponentials where the model contradicts them
            for _ in range(12):
                if r2 != z3.sat: break
                m = m2
                new = self.sharpen(m)
                if not new or self.refined > 60: break
                self.refined += 1
                for a in new: self.axiom(a)
                r2, m2 = self.check([neg], want_model=True, timeout=2500, retry=False)
            if r2 == z3.unsat:
                self.stats.proved += 1; return True
            if r2 == z3.sat: m = m2
        if r == z3.unknown: self.stats.unknown += 1
        else: self.stats.sat += 1
        self.failures.append((msg, str(r), self.values(m) if m is not None else None, list(self.taken)))
        return False
    def sharpen(self, m):
        """True facts about cosines, sines and exponentials that the model violates."""
        out = []
        for a, (c, s) in list(self.angles.items()):
            za, zc, zs = self.atoms[a], self.atoms[v_atom(c)], self.atoms[v_atom(s)]
            va, vc, vs = (zfloat(m.eval(z, model_completion=True)) for z in (za, zc, zs))
            if abs(va) > 1e6 or (abs(vc - math.cos(va)) < 1e-7 and abs(vs - math.sin(va)) < 1e-7): continue
            v = Fraction(round(va * 2**40), 2**40); d = za - z3.RealVal(v); ad = z3.If(d >= 0, d, -d)
            C, S = math.cos(float(v)), math.sin(float(v))
            for z, f, g in ((zc, C, -S), (zs, S, C)):
                e0 = z - z3.RealVal(Fraction(f))
                out += [e0 <= ad + EPS, -e0 <= ad + EPS]
                e1 = e0 - z3.RealVal(Fraction(g)) * d
                for w, k in ((4, 8), (64, 128), (4096, 8192)):
                    out.append(z3.Implies(ad <= z3.Q(1, w), z3.And(e1 <= ad / k + EPS, -e1 <= ad / k + EPS)))
        for v, df in list(self.defs.items()):
            if df[0] not in ('exp', 'log') or df[1].d is not None: continue
            k = df[1].z(); k = z3.ToReal(k) if k.is_int() else k; zv = self.atoms[v]
            x, y = zfloat(m.eval(k, model_completion=True)), zfloat(m.eval(zv, model_completion=True))
            try: t = getattr(math, df[0])(x)
            except (OverflowError, ValueError): continue
            if abs(y - t) <= 1e-6 * (abs(t) + 1e-3) or t == 0 or abs(t) > 1e12: continue
            X = z3.RealVal(Fraction(x)); rel = Fraction(abs(t)) / 10**9 + Fraction(1, 10**15); lo, hi = z3.RealVal(Fraction(t) - rel), z3.RealVal(Fraction(t) + rel)
            out += [z3.Implies(k <= X, zv <= hi), z3.Implies(k >= X, zv >= lo)]
            sl = z3.RealVal(Fraction(t if df[0] == 'exp' else 1 / x))
            if df[0] == 'exp': out.append(zv >= lo + sl * (k - X))          # tangents bound convex and concave functions
            else: out.append(zv <= hi + sl * (k - X))
        return out
    def prove_eqs(self, pairs, msg):
        """All pairs equal, as one obligation."""
        es = []
        for a, b in pairs:
            if isinstance(a, SymB) or isinstance(b, SymB):
                es.append(zB(toB(a) if isinstance(a, SymB) else wrap(a) != 0) == zB(toB(b) if isinstance(b, SymB) else wrap(b) != 0)); continue
            a, b = SymC.of(a), SymC.of(b)
            for x, y in ((a.re, b.re), (a.im, b.im)):
                if x.isconst() and y.isconst():
                    if abs(x.cval() - y.cval()) > Fraction(1, 10**9) * (1 + abs(y.cval())): es.append(z3.BoolVal(False))
                    continue
                c = x == y
                if c is True: es.append(x.z() == y.z() if x.d is None and y.d is None else z3.BoolVal(True))
                else: es.append(zB(c))
        if not es: 
            self.stats.proved += 1; return True
        # one query each when they are not identities
        hard = [e for e in es if not z3.is_true(z3.simplify(e))]
        if not hard:
            self.stats.trivial += 1; self.stats.proved += 1; return True
        if len(hard) <= 1: return self.prove(SymB(z3.And(*es)), msg)
        ok = True
        for e in hard: ok = self.prove(SymB(e), msg) and ok
        return ok
    def values(self, m):
        """Concrete values of the named inputs under a model."""
        out = {}
        for name, (kind, v) in self.inputs.items():
            if kind == 'bool':
                out[name] = bool(z3.is_true(m.eval(v.e, model_completion=True))); continue
            if kind == 'const': out[name] = v; continue
            if kind == 'bv':
                out[name] = m.eval(v, model_completion=True).as_long(); continue
            x = m.eval(self.atoms[name], model_completion=True)
            if kind == 'int': out[name] = x.as_long()
            elif kind == 'real': out[name] = zfloat(x)
            else:
                c, s = self.angles[name]
                cv = zfloat(m.eval(self.atoms[v_atom(c)], model_completion=True))
                sv = zfloat(m.eval(self.atoms[v_atom(s)], model_completion=True))
                av = zfloat(x); a = math.atan2(sv, cv)
                # nearest representative to the model's numeric value
                out[name] = a + 2*math.pi*round((av - a) / (2*math.pi))
        return out

EPS = z3.RealVal('1/1000000000')
def zfloat(x):
    if z3.is_int_value(x): return float(x.as_long())
    if z3.is_rational_value(x): return float(x.as_fraction())
    if z3.is_algebraic_value(x): return float(x.approx(20).as_fraction())
    try: return float(str(x))
    except ValueError: return 0.0
