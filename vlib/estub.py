"""Contracts for ephem and the Bessel functions, used on the symbolic side only.

Observer.sidereal_time() is an arbitrary angle that depends only on date and
longitude; FixedBody.compute() yields arbitrary ra/dec/az/alt that depend only on
the body's catalogue position and the observer's date and place."""
import types
from fractions import Fraction
from . import sym, snp
from .sym import SymN, is_sym, EngineLimit, wrap, z3

def _k(x): return wrap(x).key() if is_sym(x) or isinstance(x, (int, float)) else repr(x)

class Observer(object):
    def __init__(self):
        self.date = 0.0; self.epoch = 0.0; self.lat = 0.0; self.long = 0.0; self.elev = 0.0; self.pressure = 1010.0
        self.name = None
    def sidereal_time(self):
        E = sym.ex(); key = ('lst', _k(self.date), _k(self.long))
        if key not in E.memo:
            v = E.memo[key] = E.angle('lst')
            E.assume(v >= 0); E.assume(v < sym.pi_() * 2)
        return E.memo[key]

class Body(object):
    name = ''
    def __init__(self): pass
    def _bkey(self): return (type(self).__name__,)
    def compute(self, obs=None, epoch=None):
        E = sym.ex()
        key = ('body',) + self._bkey() + (_k(obs.date), _k(obs.lat), _k(obs.long))
        if key not in E.memo:
            ra, dec, az, alt = E.angle('ra'), E.angle('dec'), E.angle('az'), E.angle('alt')
            PI = sym.pi_()
            for a in (ra, az): E.assume(a >= 0); E.assume(a < PI * 2)
            for a in (dec, alt):
                E.assume(a * 2 >= -PI); E.assume(a * 2 <= PI)
                E.assume(E.angles[sym.v_atom(a)][0] >= 0)
            E.memo[key] = (ra, dec, az, alt)
        self.ra, self.dec, self.az, self.alt = E.memo[key]
        self.g_ra, self.g_dec, self.a_ra, self.a_dec = E.memo[key][0], E.memo[key][1], E.memo[key][0], E.memo[key][1]

class FixedBody(Body):
    def __init__(self): self._ra = 0.0; self._dec = 0.0; self._epoch = J2000
    def _bkey(self): return ('fixed', _k(self._ra), _k(self._dec), _k(self._epoch))

J2000 = 36525.0
B1950 = 18262.92341
B1900 = 0.8135

def module():
    m = types.ModuleType('ephem')
    m.Observer, m.FixedBody, m.Body = Observer, FixedBody, Body
    m.J2000, m.B1950, m.B1900, m.pi = J2000, B1950, B1900, 3.141592653589793
    for n in ('Sun', 'Moon', 'Mercury', 'Venus', 'Mars', 'Jupiter', 'Saturn', 'Uranus', 'Neptune', 'Pluto'):
        setattr(m, n, type(n, (Body,), {}))
    m.date = m.Date = lambda x: x
    m.degrees = m.hours = lambda x: x
    def julian_date(x=None):
        if x is None: return sym.ex().memo.setdefault('now', sym.ex().fresh('now')) + Fraction(2415020)
        if isinstance(x, Observer): x = x.date
        return x + 2415020.
    m.julian_date = julian_date
    m.now = lambda: sym.ex().memo.setdefault('now', sym.ex().fresh('now'))
    class _Coord:
        def __init__(self, *a, **k): raise EngineLimit('ephem coordinate conversion')
    m.Equatorial, m.Ecliptic, m.Galactic = [type(n, (_Coord,), {}) for n in ('Equatorial', 'Ecliptic', 'Galactic')]
    return m
module._fresh = True

def j1(x):
    """|J1(x)| <= |x|/2 and J1(0) = 0."""
    def one(v):
        v = wrap(v)
        if v.isconst() and v.cval() == 0: return SymN({})
        half = sym.absval(v) * Fraction(1, 2)
        return sym.ex().ufun('j1', [v], lambda r: [sym.zB(sym.b_and(r <= half, r >= -half))])
    return snp.elementwise(one, x)
def i0(x):
    def one(v):
        v = wrap(v)
        if v.isconst() and v.cval() == 0: return wrap(1)
        neg, k = sym._signnorm(v)
        return sym.ex().ufun('i0', [sym.absval(k) if not k.isconst() else abs(k)], lambda r: [sym.zB(r >= 1)])
    return snp.elementwise(one, x)
def special():
    m = types.ModuleType('scipy.special'); m.j1, m.i0 = j1, i0
    return m
special._fresh = True
STUBS = {'ephem': module, 'scipy.special': special}
