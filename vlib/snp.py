"""A stand-in for numpy inside symbolically executed modules.

Arrays holding symbolic numbers are object arrays (class SArr).  Creation
functions for float and complex types make such arrays; everything that only
touches concrete data is numpy's own.
"""
import sys, math, types, builtins
import numpy as np
from fractions import Fraction
from . import sym
from .sym import SymN, SymC, SymB, is_sym, EngineLimit, wrap

def _kind(dt):
    """'f' float, 'c' complex, 'i' int, 'u' unsigned, 'b' bool, 'O' object, None unknown."""
    if dt is None: return None
    if dt is float or dt is PyFloat: return 'f'
    if dt is complex: return 'c'
    if dt is object: return 'O'
    try: return np.dtype(dt).kind
    except TypeError: return None

class PyFloat(float): pass

def has_sym(x):
    if is_sym(x): return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)): return any(has_sym(e) for e in x)
    return False

def mk(x):
    """Object SArr from nested data."""
    if isinstance(x, np.ma.MaskedArray): return x
    if isinstance(x, np.ndarray):
        a = x.astype(object) if x.dtype != object else x
        return a.view(SArr)
    def shape(v):
        if isinstance(v, np.ndarray): return v.shape
        if isinstance(v, (list, tuple)) or (hasattr(v, '__iter__') and not is_sym(v) and not isinstance(v, str)):
            v = list(v)
            return (len(v),) + (shape(v[0]) if v else ())
        return ()
    if not isinstance(x, (list, tuple)) and hasattr(x, '__iter__') and not is_sym(x): x = list(x)
    s = shape(x)
    a = np.empty(s, dtype=object)
    if s == (): a[()] = x
    else:
        def fill(dst, v):
            if isinstance(dst, np.ndarray) and dst.ndim > 0:
                v = list(v)
                if len(v) != dst.shape[0]: raise ValueError('inhomogeneous shape')
                for i, e in enumerate(v):
                    if dst.ndim == 1: dst[i] = e[()] if isinstance(e, np.ndarray) and e.ndim == 0 else e
                    else: fill(dst[i], e)
        fill(a, x)
    return a.view(SArr)

def cast(x, dt):
    """Scalar conversion to a numpy type (real semantics: float widths are not modelled)."""
    k = _kind(dt)
    if isinstance(x, np.generic): x = x.item()
    if isinstance(x, str) and x in ('?', 'N/A'): x = 0      # fill value under a mask
    if k in ('i', 'u'):
        if is_sym(x):
            if isinstance(x, SymB): return wrap(x)
            if isinstance(x, SymC): raise EngineLimit('complex to int')
            return sym.trunc(x)
        return int(x)
    if k == 'b':
        return sym.toB(x) if is_sym(x) else bool(x)
    if k == 'c':
        return SymC.of(x) if is_sym(x) else complex(x)
    if k == 'f':
        if isinstance(x, SymC): return x.re
        if isinstance(x, SymB): return wrap(x)
        if isinstance(x, SymN): return SymN(x.n, x.d)
        if isinstance(x, complex): return x.real
        return float(x)
    return x

def _scal(x):
    return x

# ------------------------------------------------------------ scalar functions
def s_where1(c, a, b): return sym.ite(c, a, b)
def _un(fsym, fnum):
    def f(x):
        if is_sym(x): return fsym(x)
        return fnum(x)
    return f
def s_conj(x): return x.conjugate() if hasattr(x, 'conjugate') else x
def s_sign(x):
    x = wrap(x)
    return sym.ite(x > 0, 1, sym.ite(x < 0, -1, 0))
def s_pow(a, b):
    if is_sym(a) or is_sym(b): return sym.power(a if isinstance(a, (SymN, SymC)) else wrap(a), b)
    return a ** b
def s_sqrt(x):
    if is_sym(x): return sym.sqrt(x)
    if isinstance(x, complex): return np.sqrt(x)
    return sym.sqrt(x) if sym.CUR is not None and x >= 0 else np.sqrt(x)
def s_div(a, b):
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)) and b != 0:
            return wrap(Fraction(a) / Fraction(b)) if math.isfinite(a) and math.isfinite(b) else a / b
        return np.true_divide(a, b)
    return a / b
def s_trig(fsym, fnum):
    def f(x):
        if is_sym(x): return fsym(x)
        if isinstance(x, complex): return fnum(x)
        return fsym(wrap(x)) if x == 0 else fnum(x)
    return f
def s_exp(x):
    if is_sym(x): return sym.exp(x)
    return np.exp(x)
def _sub(a, b): return a - b
UF = {
    'add': lambda a, b: a + b, 'subtract': _sub, 'multiply': lambda a, b: a * b,
    'true_divide': s_div, 'divide': s_div, 'floor_divide': lambda a, b: a // b,
    'remainder': lambda a, b: a % b, 'mod': lambda a, b: a % b,
    'power': s_pow, 'float_power': s_pow, 'negative': lambda a: -a, 'positive': lambda a: a,
    'absolute': lambda a: abs(a), 'fabs': lambda a: abs(a), 'conjugate': s_conj, 'conj': s_conj,
    'square': lambda a: a * a, 'reciprocal': lambda a: s_div(1, a),
    'sqrt': s_sqrt, 'cos': s_trig(sym.cos, np.cos), 'sin': s_trig(sym.sin, np.sin), 
    'tan': lambda a: sym.sin(wrap(a)) / sym.cos(wrap(a)),
    'exp': s_exp, 'log': _un(sym.log, np.log), 'log10': lambda a: sym.log(a) / sym.log(wrap(10)) if is_sym(a) else np.log10(a),
    'arctan2': lambda a, b: sym.arctan2(a, b) if is_sym(a) or is_sym(b) else np.arctan2(a, b),
    'arctan': lambda a: sym.arctan2(a, 1) if is_sym(a) else np.arctan(a),
    'arcsin': _un(sym.arcsin, np.arcsin), 'arccos': _un(sym.arccos, np.arccos),
    'hypot': lambda a, b: s_sqrt(a*a + b*b),
    'deg2rad': lambda a: a * sym.pi_() / 180, 'rad2deg': lambda a: a * 180 / sym.pi_(),
    'radians': lambda a: a * sym.pi_() / 180, 'degrees': lambda a: a * 180 / sym.pi_(),
    'floor': _un(sym.floor, np.floor), 'ceil': _un(sym.ceil, np.ceil), 'rint': _un(sym.rnd, np.rint), 'trunc': _un(sym.trunc, np.trunc),
    'sign': _un(s_sign, np.sign),
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b,
    'greater_equal': lambda a, b: a >= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'logical_not': sym.b_not, 'logical_and': lambda a, b: sym.b_and(a, b), 'logical_or': lambda a, b: sym.b_or(a, b),
    'logical_xor': lambda a, b: sym.toB(a) != sym.toB(b),
    'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b, 'bitwise_xor': lambda a, b: a ^ b,
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b, 'invert': lambda a: sym.b_not(a) if isinstance(a, (SymB, bool, np.bool_)) else ~a,
    'maximum': lambda a, b: sym.smax(a, b) if is_sym(a) or is_sym(b) else max(a, b), 'minimum': lambda a, b: sym.smin(a, b) if is_sym(a) or is_sym(b) else min(a, b),
    'fmax': lambda a, b: sym.smax(a, b), 'fmin': lambda a, b: sym.smin(a, b),
    'isnan': lambda a: False if is_sym(a) else bool(np.isnan(a)), 'isinf': lambda a: False if is_sym(a) else bool(np.isinf(a)),
    'isfinite': lambda a: True if is_sym(a) else bool(np.isfinite(a)),
    '_real': lambda a: a.real, '_imag': lambda a: a.imag,
}
UNARY = {'negative', 'positive', 'absolute', 'fabs', 'conjugate', 'conj', 'square', 'reciprocal', 'sqrt', 'cos', 'sin', 'tan', 'exp', 'log', 'log10', 'arctan', 'arcsin', 'arccos', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'floor', 'ceil', 'rint', 'trunc', 'sign', 'logical_not', 'invert', 'isnan', 'isinf', 'isfinite'}

def elementwise(f, *args):
    """Apply f over broadcast arguments -> SArr, or a scalar for scalars."""
    arrs = []
    for a in args:
        if isinstance(a, np.ndarray): arrs.append(a if a.dtype == object else np.asarray(a))
        elif isinstance(a, (list, tuple)): arrs.append(np.asarray(mk(a)))
        else:
            z = np.empty((), dtype=object); z[()] = a; arrs.append(z)
    b = np.broadcast_arrays(*[np.asarray(x) for x in arrs]) if len(arrs) > 1 else [np.asarray(arrs[0])]
    shp = b[0].shape
    out = np.empty(shp, dtype=object)
    its = [x.flat for x in b]
    flat = []
    for vals in zip(*its):
        vals = [v.item() if isinstance(v, np.generic) else v for v in vals]
        flat.append(f(*vals))
    if shp == (): return flat[0]
    of = out.reshape(-1)
    for i, v in enumerate(flat): of[i] = v
    return of.reshape(shp).view(SArr)

def _all_plain_bool(a):
    return isinstance(a, np.ndarray) and a.dtype == object and all(isinstance(e, (bool, np.bool_)) for e in a.flat)

def ufunc_dispatch(ufunc, method, inputs, kw):
    out = kw.get('out')
    name = ufunc.__name__
    if any(isinstance(i, np.ma.MaskedArray) for i in inputs) and method == '__call__':
        return ma_ufunc(ufunc, inputs)
    if method == '__call__':
        f = UF.get(name)
        if f is None: raise EngineLimit('ufunc ' + name)
        r = elementwise(f, *inputs)
        if _all_plain_bool(r) : r = np.asarray(r).astype(bool)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, np.ndarray):
                if o.dtype != object: 
                    if has_sym(r): raise EngineLimit('in-place symbolic write into a %s array' % o.dtype)
                    np.asarray(o)[...] = np.asarray(r, dtype=o.dtype) if isinstance(r, np.ndarray) else r
                else: np.asarray(o)[...] = np.asarray(r) if isinstance(r, np.ndarray) else r
                return o
        return r
    if method == 'reduce':
        a = inputs[0]; axis = kw.get('axis', 0)
        return reduce_(UF[name], a, axis, kw.get('keepdims', False), name)
    if method == 'outer':
        a, b = [np.asarray(i) for i in inputs]
        return elementwise(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'accumulate':
        a = np.asarray(inputs[0]); axis = kw.get('axis', 0)
        a = np.moveaxis(a, axis, 0); res = [a[0]]
        for e in a[1:]: res.append(elementwise(UF[name], res[-1], e))
        return np.moveaxis(np.asarray(mk(res)), 0, axis).view(SArr)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        vals = inputs[2] if len(inputs) > 2 else None
        idx = idx if isinstance(idx, tuple) else (idx,)
        idxb = np.broadcast_arrays(*[np.asarray(i) for i in idx])
        vb = np.broadcast_to(np.asarray(mk(vals)) if not isinstance(vals, np.ndarray) else np.asarray(vals), idxb[0].shape)
        for k in np.ndindex(idxb[0].shape):
            t = tuple(int(i[k]) for i in idxb)
            a[t] = UF[name](a[t], vb[k])
        return None
    raise EngineLimit('ufunc method %s.%s' % (name, method))

IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}
def reduce_(f, a, axis=None, keepdims=False, name=None):
    a = np.asarray(a)
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True): a = np.asarray(reduce_(f, a, ax, False, name))
        return a.view(SArr) if a.ndim else a[()]
    if axis is None: a = a.reshape(-1); axis = 0
    a = np.moveaxis(a, axis, 0)
    if a.shape[0] == 0:
        return np.full(a.shape[1:], IDENT[name], dtype=object).view(SArr) if a.ndim > 1 else IDENT[name]
    acc = a[0]
    for e in a[1:]: acc = elementwise(f, acc, e)
    if isinstance(acc, np.ndarray):
        acc = np.asarray(acc).astype(object).view(SArr)
        if keepdims: acc = np.expand_dims(acc, axis)
    elif keepdims:
        z = np.empty((1,) * max(a.ndim, 1), dtype=object); z[...] = acc; return z.view(SArr)
    return acc

# ------------------------------------------------------------ the array class
def conc_index(ix):
    """Make index objects concrete."""
    if isinstance(ix, tuple): return tuple(conc_index(i) for i in ix)
    if isinstance(ix, SymN): return ix.__index__()
    if isinstance(ix, SymB): return bool(ix)
    if isinstance(ix, slice):
        g = lambda v: v.__index__() if isinstance(v, SymN) else v
        return slice(g(ix.start), g(ix.stop), g(ix.step))
    if isinstance(ix, list) and has_sym(ix): ix = mk(ix)
    if isinstance(ix, np.ndarray) and ix.dtype == object:
        flat = [e for e in ix.flat]
        if all(isinstance(e, (bool, np.bool_, SymB)) for e in flat) and flat:
            return np.array([bool(e) for e in flat], dtype=bool).reshape(ix.shape)
        return np.array([e.__index__() if not isinstance(e, float) else _fl(e) for e in flat], dtype=np.int64).reshape(ix.shape)
    return ix
def _fl(e): raise IndexError('arrays used as indices must be of integer (or boolean) type')

class SArr(np.ndarray):
    __array_priority__ = 2000
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)
    def __array_function__(self, func, types_, args, kwargs):
        h = OVERRIDE.get(func)
        if h is not None: return h(*args, **kwargs)
        args2 = _plain(args); kwargs2 = {k: _plain(v) for k, v in kwargs.items()}
        r = func(*args2, **kwargs2)
        return _rewrap(r)
    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self, conc_index(ix))
        return r
    def __setitem__(self, ix, v):
        if isinstance(v, (list, tuple)): v = mk(v)
        if isinstance(v, np.ndarray) and v.ndim == 0 and not isinstance(v, np.ma.MaskedArray): v = v[()]
        np.ndarray.__setitem__(self, conc_index(ix), v)
    def astype(self, dt, *a, **k):
        r = elementwise(lambda x: cast(x, dt), np.asarray(self)) if self.ndim else mk(cast(self[()], dt))
        if isinstance(r, np.ndarray) and not has_sym(r) and _kind(dt) in ('i', 'u', 'b'):
            return np.asarray(r).astype(dt)
        return r
    @property
    def real(self): return elementwise(lambda x: x.real, self) if self.ndim else mk(self[()].real)
    @real.setter
    def real(self, v):
        vb = np.broadcast_to(np.asarray(v, dtype=object), self.shape)
        for k in np.ndindex(self.shape): self[k] = SymC(vb[k], self[k].imag)
    @property
    def imag(self): return elementwise(lambda x: x.imag, self) if self.ndim else mk(self[()].imag)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False): return reduce_(UF['add'], self, axis, keepdims, 'add')
    def prod(self, axis=None, **k): return reduce_(UF['multiply'], self, axis, False, 'multiply')
    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return elementwise(s_div, self.sum(axis), n)
    def max(self, axis=None, **k): return reduce_(UF['maximum'], self, axis)
    def min(self, axis=None, **k): return reduce_(UF['minimum'], self, axis)
    def all(self, axis=None, **k): return reduce_(UF['logical_and'], self, axis, False, 'logical_and')
    def any(self, axis=None, **k): return reduce_(UF['logical_or'], self, axis, False, 'logical_or')
    def clip(self, lo=None, hi=None, **k): return s_clip(self, lo, hi)
    def conj(self): return elementwise(s_conj, self)
    conjugate = conj
    def compress(self, cond, axis=None, out=None):
        c = conc_bool(cond)
        return np.ndarray.compress(self, c, axis=axis)
    def take(self, ind, axis=None, out=None, mode='raise'):
        return np.ndarray.take(self, conc_index(ind) if not isinstance(ind, (list, tuple)) else conc_index(list(ind)), axis=axis, mode=mode)
    def argmax(self, axis=None): return s_arg(self, axis, lambda a, b: a > b)
    def argmin(self, axis=None): return s_arg(self, axis, lambda a, b: a < b)
    def argsort(self, axis=-1, **k): return s_argsort(self, axis)
    def searchsorted(self, v, side='left', sorter=None): return s_searchsorted(self, v, side)
    def round(self, decimals=0, out=None):
        if decimals: raise EngineLimit('round decimals')
        return elementwise(UF['rint'], self)
    def dot(self, o): return s_dot(self, o)
    def std(self, *a, **k): return s_sqrt(s_var(self))
    def var(self, *a, **k): return s_var(self)
    def cumsum(self, axis=None): return ufunc_dispatch(np.add, 'accumulate', (self.reshape(-1) if axis is None else self,), {'axis': axis or 0})
    def __bool__(self):
        if self.size == 1: return bool(self.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')
    def __float__(self):
        if self.size == 1: return float(self.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted')

def _plain(x):
    if isinstance(x, SArr): return x.view(np.ndarray)
    if isinstance(x, list): return [_plain(e) for e in x]
    if isinstance(x, tuple): return tuple(_plain(e) for e in x)
    return x
def _rewrap(r):
    if isinstance(r, np.ma.MaskedArray): return r
    if isinstance(r, np.ndarray) and r.dtype == object: return r.view(SArr)
    if isinstance(r, tuple): return tuple(_rewrap(e) for e in r)
    if isinstance(r, list): return [_rewrap(e) for e in r]
    return r

def conc_bool(c):
    c = np.asarray(c) if not isinstance(c, (list, tuple)) else np.asarray(mk(c))
    if c.dtype == object: return np.array([bool(e) for e in c.flat], dtype=bool).reshape(c.shape)
    return c

# ------------------------------------------------------------ overridden functions
def s_where(c, *ab):
    if not ab:
        return np.nonzero(conc_bool(c))
    a, b = ab
    if isinstance(c, np.ndarray) and c.dtype != object and not has_sym(a) and not has_sym(b) and not any(isinstance(x, SArr) for x in (a, b)):
        return np.where(c, a, b)
    r = elementwise(lambda k, x, y: sym.ite(k, x, y) if is_sym(k) else (x if k else y), c, a, b)
    return r if isinstance(r, np.ndarray) else mk(r)
def s_clip(a, lo=None, hi=None, **k):
    lo = k.get('min', lo); hi = k.get('max', hi)
    def f(x, l, h):
        if l is not None and not (isinstance(l, float) and l == -math.inf): x = sym.ite(wrap(x) < l, l, x) if is_sym(x) or is_sym(l) else max(x, l)
        if h is not None and not (isinstance(h, float) and h == math.inf): x = sym.ite(wrap(x) > h, h, x) if is_sym(x) or is_sym(h) else min(x, h)
        return x
    return elementwise(f, a, lo, hi)
def s_arg(a, axis, better):
    a = np.asarray(a)
    if axis is None: a = a.reshape(-1)
    elif a.ndim > 1:
        return np.apply_along_axis(lambda v: s_arg(v, None, better), axis, a)
    best = 0
    for i in range(1, a.size):
        if bool(better(a[i], a[best])): best = i
    return best
def s_argsort(a, axis=-1, **k):
    a = np.asarray(a)
    if a.ndim != 1: 
        if axis is None: a = a.reshape(-1)
        else: raise EngineLimit('argsort of a %d-d array' % a.ndim)
    out = []
    for i in range(a.size):
        j = len(out)
        while j > 0 and bool(wrap(a[i]) < a[out[j-1]]): j -= 1
        out.insert(j, i)
    return np.array(out, dtype=np.int64)
def s_searchsorted(a, v, side='left', sorter=None):
    a = np.asarray(a)
    def one(x):
        i = 0
        while i < a.size and bool((wrap(a[i]) < x) if side == 'left' else (wrap(a[i]) <= x)): i += 1
        return i
    if isinstance(v, np.ndarray) and v.ndim: return np.array([one(x) for x in v])
    return one(v[()] if isinstance(v, np.ndarray) else v)
def s_dot(a, b, out=None):
    if not isinstance(a, np.ndarray) and is_sym(a) or not isinstance(b, np.ndarray) and is_sym(b): return a * b
    a, b = np.asarray(a if isinstance(a, np.ndarray) else mk(a)), np.asarray(b if isinstance(b, np.ndarray) else mk(b))
    if a.ndim == 0 or b.ndim == 0: return elementwise(UF['multiply'], a, b)
    r = np.dot(a.astype(object), b.astype(object))
    return r.view(SArr) if isinstance(r, np.ndarray) else r
def s_var(a, *x, **k):
    a = mk(a); m = a.mean()
    d = abs(a - m)
    return (d * d).mean()
def s_average(a, axis=None, weights=None, returned=False, **k):
    a = a if isinstance(a, np.ndarray) else mk(a)
    if weights is None: return mk(a).mean(axis) 
    w = mk(weights)
    num, den = reduce_(UF['add'], elementwise(UF['multiply'], a, w), axis, False, 'add'), reduce_(UF['add'], np.broadcast_to(w, a.shape), axis, False, 'add')
    return elementwise(s_div, num, den)
def s_inv(m):
    m = np.asarray(m if isinstance(m, np.ndarray) else mk(m))
    if m.ndim > 2: return mk([s_inv(x) for x in m])
    n = m.shape[0]
    def det(r, c):
        if len(r) == 1: return wrap(m[r[0], c[0]])
        t = wrap(0)
        for k, cc in enumerate(c):
            t = t + wrap(m[r[0], cc]) * det(r[1:], c[:k] + c[k+1:]) * (1 if k % 2 == 0 else -1)
        return t
    idx = list(range(n)); D = det(idx, idx)
    if D.isconst() and D.cval() == 0: raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    for i in idx:
        for j in idx:
            out[j, i] = (det([r for r in idx if r != i], [c for c in idx if c != j]) if n > 1 else wrap(1)) * (1 if (i + j) % 2 == 0 else -1) / D
    return out.view(SArr)
def s_det(m):
    m = np.asarray(m); n = m.shape[0]
    def det(r, c):
        if len(r) == 1: return wrap(m[r[0], c[0]])
        t = wrap(0)
        for k, cc in enumerate(c): t = t + wrap(m[r[0], cc]) * det(r[1:], c[:k] + c[k+1:]) * (1 if k % 2 == 0 else -1)
        return t
    return det(list(range(n)), list(range(n)))
def _root(n, k):
    """exp(-2 pi i k/n)"""
    cs = sym._cs_pi(Fraction(-2 * k, n))
    if cs is None: raise EngineLimit('DFT length %d' % n)
    return SymC(cs[0], cs[1])
def s_dft1(a, inverse=False):
    n = len(a); out = []
    for j in range(n):
        t = SymC(0, 0)
        for k in range(n): t = t + SymC.of(a[k]) * _root(n, (j * k * (-1 if inverse else 1)) % n)
        out.append(t / n if inverse else t)
    return out
def s_fft(a, n=None, axis=-1, inverse=False):
    a = np.asarray(a if isinstance(a, np.ndarray) else mk(a)).astype(object)
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape, dtype=object)
    for k in np.ndindex(a.shape[:-1]): 
        v = s_dft1(list(a[k]), inverse)
        for i, e in enumerate(v): out[k + (i,)] = e
    return np.moveaxis(out, -1, axis).view(SArr)
def s_fft2(a, s=None, axes=(-2, -1), inverse=False):
    for ax in axes: a = s_fft(a, axis=ax, inverse=inverse)
    return a
def s_convolve(a, v, mode='full'):
    a, v = np.asarray(mk(a)), np.asarray(mk(v))
    if len(v) > len(a): a, v = v, a
    n, m = len(a), len(v)
    full = []
    for k in range(n + m - 1):
        t = None
        for j in range(m):
            if 0 <= k - j < n:
                x = a[k - j] * v[j]
                t = x if t is None else t + x
        full.append(t)
    if mode == 'valid': full = full[m-1:n]
    elif mode == 'same': full = full[(m-1)//2:(m-1)//2+n]
    return mk(full)
def s_polyval(p, x):
    p = [e for e in (p if isinstance(p, (list, tuple)) else np.asarray(p))]
    y = 0 if not isinstance(x, np.ndarray) else mk(np.zeros(x.shape, dtype=object))
    for c in p: y = y * x + c
    return y
def s_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b).all())
def s_abs_max(a): return mk(a).max()
def s_sinc(x):
    def f(v):
        if not is_sym(v): return np.sinc(v)
        raise EngineLimit('sinc')
    return elementwise(f, x)
def s_conj_arr(x): return elementwise(s_conj, x)
def s_median(a, **k):
    a = list(np.asarray(mk(a)).reshape(-1)); o = s_argsort(np.asarray(mk(a)))
    n = len(a)
    return a[o[n//2]] if n % 2 else (a[o[n//2-1]] + a[o[n//2]]) / 2
def s_sort(a, axis=-1, **k):
    a = mk(a); return a[s_argsort(a)]
def s_count_nonzero(a, *x, **k): return int(conc_bool(mk(a)).sum())
def s_resize(a, shp):
    r = np.resize(np.asarray(a if isinstance(a, np.ndarray) else mk(a)), shp)
    return r.view(SArr) if r.dtype == object else r
def s_polyfit(x, y, deg, **k):
    """Least squares by the normal equations, exactly (concrete abscissae)."""
    x = [Fraction(float(v)) if not is_sym(v) else v for v in np.asarray(x).reshape(-1)]
    y = list(np.asarray(mk(y)).reshape(-1))
    if any(is_sym(v) for v in x): raise EngineLimit('polyfit at symbolic abscissae')
    n = deg + 1
    A = [[v ** (deg - j) for j in range(n)] for v in x]
    ATA = [[sum(r[i] * r[j] for r in A) for j in range(n)] for i in range(n)]
    # invert exactly
    M = [row[:] + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(ATA)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None: raise EngineLimit('rank-deficient polyfit')
        M[c], M[p] = M[p], M[c]
        iv = 1 / M[c][c]; M[c] = [v * iv for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]; M[r] = [u - f * w for u, w in zip(M[r], M[c])]
    inv = [row[n:] for row in M]
    out = []
    for i in range(n):
        t = wrap(0)
        for xi, (row, yi) in enumerate(zip(A, y)):
            c = sum(inv[i][j] * row[j] for j in range(n))
            t = t + wrap(c) * yi
        out.append(t)
    return mk(out)

OVERRIDE = {
    np.where: s_where, np.clip: s_clip, np.dot: s_dot, np.argmax: lambda a, axis=None, **k: s_arg(a, axis, lambda x, y: x > y),
    np.argmin: lambda a, axis=None, **k: s_arg(a, axis, lambda x, y: x < y), np.argsort: s_argsort, np.searchsorted: s_searchsorted,
    np.average: s_average, np.mean: lambda a, axis=None, **k: mk(a).mean(axis), np.sum: lambda a, axis=None, **k: mk(a).sum(axis),
    np.prod: lambda a, axis=None, **k: mk(a).prod(axis),
    np.max: lambda a, axis=None, **k: mk(a).max(axis), np.min: lambda a, axis=None, **k: mk(a).min(axis),
    np.all: lambda a, axis=None, **k: mk(a).all(axis), np.any: lambda a, axis=None, **k: mk(a).any(axis),
    np.var: s_var, np.std: lambda a, **k: s_sqrt(s_var(a)), np.linalg.inv: s_inv, np.linalg.det: s_det,
    np.fft.fft: s_fft, np.fft.ifft: lambda a, *x, **k: s_fft(a, *x, inverse=True, **k),
    np.fft.fft2: s_fft2, np.fft.ifft2: lambda a, *x, **k: s_fft2(a, *x, inverse=True, **k),
    np.convolve: s_convolve, np.polyval: s_polyval, np.real: lambda a: mk(a).real, np.imag: lambda a: mk(a).imag,
    np.compress: lambda c, a, axis=None, **k: mk(a).compress(c, axis), np.take: lambda a, i, axis=None, **k: mk(a).take(i, axis),
    np.allclose: s_allclose, np.round: lambda a, d=0, **k: mk(a).round(d), np.around: lambda a, d=0, **k: mk(a).round(d),
    np.median: s_median, np.sort: s_sort, np.count_nonzero: s_count_nonzero, np.resize: s_resize, np.polyfit: s_polyfit,
    np.cumsum: lambda a, axis=None, **k: mk(a).cumsum(axis), np.nonzero: lambda a: np.nonzero(conc_bool(a)),
    np.array_equal: lambda a, b, **k: np.shape(a) == np.shape(b) and bool(mk(elementwise(UF['equal'], a, b)).all()),
    np.zeros_like: lambda a, dtype=None, **k: _like(a, 0, dtype), np.ones_like: lambda a, dtype=None, **k: _like(a, 1, dtype),
    np.empty_like: lambda a, dtype=None, **k: _like(a, 0, dtype),
    np.copy: lambda a, **k: mk(a).copy(), np.diff: lambda a, n=1, axis=-1: mk(a)[1:] - mk(a)[:-1],
    np.einsum: lambda *a, **k: _rewrap(np.einsum(*[_plain(x) for x in a], **{**k, 'optimize': False})),
    np.sinc: s_sinc,
}
OVERRIDE[np.amax] = OVERRIDE[np.max]; OVERRIDE[np.amin] = OVERRIDE[np.min]

def _like(a, v, dtype=None):
    if dtype is not None and _kind(dtype) in ('i', 'u', 'b'): return np.full(np.shape(a), v, dtype=dtype)
    r = np.empty(np.shape(a), dtype=object); r[...] = v
    return r.view(SArr)

# masked arrays: data object array + plain boolean mask
class SMa(np.ma.MaskedArray):
    """Masked array of symbolic numbers."""
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__': raise EngineLimit('masked ufunc.' + method)
        return ma_ufunc(ufunc, inputs)
    def sum(self, axis=None, **k): return self._red('add', axis)
    def max(self, axis=None, **k): return self._red('maximum', axis)
    def min(self, axis=None, **k): return self._red('minimum', axis)
    def _red(self, nm, axis):
        if axis is not None: raise EngineLimit('masked reduction along an axis')
        v = [x for x, m in zip(np.asarray(self.data).flat, np.ma.getmaskarray(self).flat) if not m]
        if not v: return np.ma.masked
        return reduce_(UF[nm], mk(v))
    def mean(self, axis=None, **k):
        if axis is not None: raise EngineLimit('masked reduction along an axis')
        return s_div(self.sum(), int((~np.ma.getmaskarray(self)).sum()))
    def filled(self, fill_value=None):
        if fill_value is None: fill_value = 1e20
        r = np.array(self.data, dtype=object, copy=True); mm = np.ma.getmaskarray(self)
        r[mm] = fill_value
        return r.view(SArr)
for _o, _u in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('truediv', np.true_divide), ('floordiv', np.floor_divide), ('mod', np.remainder), ('pow', np.power)):
    setattr(SMa, '__%s__' % _o, (lambda u: lambda a, b: ma_ufunc(u, (a, b)))(_u))
    setattr(SMa, '__r%s__' % _o, (lambda u: lambda a, b: ma_ufunc(u, (b, a)))(_u))
    if _o not in ('mod', 'floordiv'): setattr(SMa, '__i%s__' % _o, (lambda u: lambda a, b: ma_ufunc(u, (a, b)))(_u))
for _o, _u in (('lt', np.less), ('le', np.less_equal), ('gt', np.greater), ('ge', np.greater_equal), ('eq', np.equal), ('ne', np.not_equal)):
    setattr(SMa, '__%s__' % _o, (lambda u: lambda a, b: ma_ufunc(u, (a, b)))(_u))
for _o, _u in (('neg', np.negative), ('abs', np.absolute)):
    setattr(SMa, '__%s__' % _o, (lambda u: lambda a: ma_ufunc(u, (a,)))(_u))
SMa.__hash__ = None

def has_obj(x):
    if is_sym(x) or isinstance(x, SArr): return True
    if isinstance(x, np.ndarray): return x.dtype == object
    if isinstance(x, (list, tuple)): return any(has_obj(e) for e in x)
    return False

def ma_ufunc(ufunc, inputs):
    m = np.ma.nomask; data = []
    for i in inputs:
        if isinstance(i, np.ma.MaskedArray):
            m = np.ma.mask_or(m, np.ma.getmaskarray(i)); data.append(i.data)
        else: data.append(i)
    r = elementwise(UF[ufunc.__name__], *data)
    if _all_plain_bool(r): r = np.asarray(r).astype(bool)
    if r.dtype == bool: return np.ma.MaskedArray(r, mask=m)
    return SMa(np.asarray(r), mask=m)

# ------------------------------------------------------------ module shims
class ModShim(types.ModuleType):
    """A module with some attributes replaced."""
    def __init__(self, real, over, wrapall=None):
        types.ModuleType.__init__(self, real.__name__)
        object.__setattr__(self, '_real', real); object.__setattr__(self, '_over', over)
    def __getattr__(self, nm):
        o = object.__getattribute__(self, '_over')
        if nm in o:
            v = o[nm]
            return v() if isinstance(v, Lazy) else v
        return getattr(object.__getattribute__(self, '_real'), nm)
class Lazy:
    def __init__(self, f): self.f = f
    def __call__(self): return self.f()

def active(): return sym.CUR is not None

INTLIKE = ('i', 'u', 'b')
def n_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, np.ma.MaskedArray): x = x.data
    if isinstance(x, SArr) or has_sym(x) or _containsS(x):
        r = mk(x)
        if dtype is not None: r = r.astype(dtype)
        if not isinstance(r, np.ndarray): r = mk(r)
        if r is x or (isinstance(x, np.ndarray) and copy and np.shares_memory(r, x)): r = r.copy()
        return r
    r = np.array(x, dtype=dtype, **({'ndmin': ndmin} if ndmin else {}))
    return floaty(r)
def _containsS(x):
    if isinstance(x, SArr): return True
    return isinstance(x, (list, tuple)) and any(_containsS(e) for e in x)
def n_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and dtype is None: return x
    return n_array(x, dtype, copy=False)
OBJ_FLOATS = True
def floaty(r):
    """Float and complex arrays become object arrays so symbolic values can be stored in them."""
    if active() and isinstance(r, np.ndarray) and not isinstance(r, np.ma.MaskedArray) and r.dtype.kind in 'fc': return mk(r)
    return r
def _create(fill):
    def f(shape, dtype=float, *a, **k):
        if 'dtype' in k: dtype = k.pop('dtype')
        kd = _kind(dtype)
        if isinstance(shape, SymN): shape = shape.__index__()
        elif isinstance(shape, (tuple, list)): shape = tuple(s.__index__() if isinstance(s, SymN) else s for s in shape)
        if not active() or kd in INTLIKE: return np.full(shape, fill, dtype=dtype)
        r = np.empty(shape, dtype=object); r[...] = complex(fill) if kd == 'c' and False else fill
        return r.view(SArr)
    return f
def _via(name):
    real = getattr(np, name)
    def f(*a, **k):
        if any(has_obj(x) for x in a):
            if isinstance(real, np.ufunc): return ufunc_dispatch(real, '__call__', a, {})
            return OVERRIDE[real](*[mk(x) if isinstance(x, (list, tuple)) else x for x in a], **k)
        return real(*a, **k)
    f.__name__ = name
    return f
def n_full(shape, v, dtype=None, **k):
    if is_sym(v) or active() and (dtype is None and isinstance(v, float) or _kind(dtype) in ('f', 'c')):
        r = np.empty(shape, dtype=object); r[...] = v
        return r.view(SArr)
    return np.full(shape, v, dtype=dtype)
def n_arange(*a, **k):
    if any(is_sym(x) for x in a):
        a = [x for x in a]
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if not is_sym(step) and step == 1 and all(isinstance(v, int) or isinstance(v, SymN) and v.isint for v in (start, stop)):
            n = (wrap(stop) - start).__index__()
            return mk([wrap(start) + i for i in range(max(n, 0))])
        n = sym.ceil((wrap(stop) - start) / step).__index__()
        return mk([wrap(start) + wrap(step) * i for i in range(max(n, 0))])
    if 'dtype' in k: k = dict(k)
    return np.arange(*a, **k)
def n_concatenate(seq, axis=0, **k):
    seq = [x if isinstance(x, np.ndarray) else (mk(x) if has_sym(x) else np.asarray(x)) for x in seq]
    if any(isinstance(x, SArr) for x in seq):
        return np.concatenate([np.asarray(x, dtype=object) for x in seq], axis=axis).view(SArr)
    return np.concatenate(seq, axis=axis, **k)
def n_fromfunction(f, shape, dtype=float, **k):
    ind = np.indices(shape)
    if _kind(dtype) == 'f': ind = ind.astype(float)
    return f(*ind, **k)
def n_float(x=0.0): return cast(x, float) if is_sym(x) else np.float64(x)
def n_indices(shape, *a, **k): return np.indices(shape, *a, **k)

_over = {
    'pi': Lazy(lambda: sym.pi_() if active() else np.pi),
    'array': n_array, 'asarray': n_asarray, 'zeros': _create(0), 'ones': _create(1), 'empty': _create(0), 'full': n_full,
    'zeros_like': lambda a, dtype=None, **k: _like_any(a, 0, dtype), 'ones_like': lambda a, dtype=None, **k: _like_any(a, 1, dtype),
    'empty_like': lambda a, dtype=None, **k: _like_any(a, 0, dtype),
    'arange': n_arange, 'concatenate': n_concatenate, 'fromfunction': n_fromfunction,
    'atleast_1d': lambda x: mk([x]) if is_sym(x) else np.atleast_1d(x),
    'isscalar': lambda x: is_sym(x) or np.isscalar(x), 'iscomplexobj': lambda x: any(isinstance(e, (SymC, complex)) for e in np.asarray(mk(x)).flat) if has_sym(x) else np.iscomplexobj(x),
}
def _like_any(a, v, dtype=None):
    if dtype is None and isinstance(a, np.ndarray) and a.dtype != object and a.dtype.kind in INTLIKE: return np.full(a.shape, v, dtype=a.dtype)
    if not active(): return np.full_like(a, v, dtype=dtype)
    return _like(a, v, dtype)
for _f in OVERRIDE:
    if _f.__name__ not in _over and getattr(np, _f.__name__, None) is _f: _over[_f.__name__] = _via(_f.__name__)
for _n in list(UF):
    if hasattr(np, _n) and isinstance(getattr(np, _n), np.ufunc) and _n not in _over: _over[_n] = _via(_n)
_over['abs'] = _over['absolute']
_over['round'] = _via('round'); _over['around'] = _via('around')

def _fftshim(name):
    real = getattr(np.fft, name)
    def f(a, *x, **k):
        if has_sym(a) or isinstance(a, SArr): return OVERRIDE[real](a, *x, **k)
        return floaty(real(a, *x, **k)) if not active() else OVERRIDE[real](a, *x, **k)
    return f
_over['fft'] = ModShim(np.fft, {n: _fftshim(n) for n in ('fft', 'ifft', 'fft2', 'ifft2')})
def _inv(m):
    return s_inv(m) if has_sym(m) or isinstance(m, SArr) else np.linalg.inv(m)
_over['linalg'] = ModShim(np.linalg, {'inv': _inv, 'det': lambda m: s_det(m) if has_sym(m) else np.linalg.det(m)})
def ma_where(c, *ab):
    if any(isinstance(x, np.ma.MaskedArray) for x in (c,) + ab):
        m = np.ma.nomask; data = []
        for x in (c,) + ab:
            if isinstance(x, np.ma.MaskedArray):
                m = np.ma.mask_or(m, np.ma.getmaskarray(x)); data.append(x.data)
            else: data.append(x)
        return SMa(np.asarray(s_where(*data)), mask=m)
    return s_where(c, *ab)
def ma_array(data, mask=np.ma.nomask, dtype=None, **k):
    if has_obj(data):
        if isinstance(data, (list, tuple)) and any(isinstance(x, np.ma.MaskedArray) for x in data):
            if mask is np.ma.nomask: mask = [np.ma.getmaskarray(x) if isinstance(x, np.ma.MaskedArray) else np.zeros(np.shape(x), dtype=bool) for x in data]
            data = [x.data if isinstance(x, np.ma.MaskedArray) else x for x in data]
        if isinstance(data, np.ma.MaskedArray):
            if mask is np.ma.nomask: mask = data.mask
            data = data.data
        d = mk(data)
        if dtype is not None: d = d.astype(dtype)
        if isinstance(mask, (list, np.ndarray)) and np.shape(mask) and np.asarray(mask).dtype == object: mask = conc_bool(mask)
        return SMa(np.asarray(d), mask=mask)
    return np.ma.array(data, mask=mask, dtype=dtype, **k)
_over['ma'] = ModShim(np.ma, {'where': ma_where, 'array': ma_array,
    'average': lambda a, *x, **k: np.ma.average(a, *x, **k)})

numpy_shim = ModShim(np, _over)
def _defl(x):
    if isinstance(x, SymN) and x.isconst(): return float(x.cval())
    if isinstance(x, SArr): return mk([_defl(e) for e in x.flat]).reshape(x.shape) if x.size else x
    return x
def _fpi(name):
    g = _over[name] if name != 'sqrt' else lambda a: elementwise(lambda x: sym.sqrt(x) if is_sym(x) else np.sqrt(x), a)
    return lambda *a, **k: _defl(g(*[_defl(x) for x in a], **k))
numpy_fpi = ModShim(np, dict(_over, pi=np.pi, **{n: _fpi(n) for n in ('sqrt', 'cos', 'sin', 'arctan2', 'arccos', 'arcsin', 'exp')}))      # pi as the double it is, for code whose angles are all concrete

math_shim = ModShim(math, {n: (lambda s, r: lambda *a: s(*a) if any(is_sym(x) for x in a) else r(*a))(s, getattr(math, n))
    for n, s in {'sqrt': sym.sqrt, 'cos': sym.cos, 'sin': sym.sin, 'exp': sym.exp, 'log': sym.log, 'atan2': sym.arctan2,
                 'asin': sym.arcsin, 'acos': sym.arccos, 'floor': sym.floor, 'ceil': sym.ceil, 'fabs': sym.absval, 'pow': sym.power, 'trunc': sym.trunc}.items()})
math_shim._over['pi'] = Lazy(lambda: sym.pi_() if active() else math.pi)
