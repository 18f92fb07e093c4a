"""Runs the scenarios of one property: symbolic execution of the current sources
with the solver deciding every obligation, then replay of the solver's models on
the real, freshly built package.  Only a failure reproduced there is reported."""
import sys, os, json, time, random, traceback, tempfile, shutil, subprocess, signal, importlib, math, pickle, hashlib, select
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from . import sym, snp
from .sym import SymN, SymC, SymB, is_sym, EngineLimit, PathAbort
from .load import SymPackage, Tracer, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')

class Skip(Exception): pass

# =========================================================== inputs
class SymV:
    """Inputs as solver variables."""
    symbolic = True
    def __init__(self, E): self.E = E
    def real(self, name, lo=-1000, hi=1000): return self.E.input(name, lo=lo, hi=hi)
    def int(self, name, lo, hi): return self.E.input(name, isint=True, lo=lo, hi=hi)
    def cint(self, name, lo, hi): return self.int(name, lo, hi).__index__()     # one path per value
    def angle(self, name, lo=None, hi=None): return self.E.input_angle(name, lo, hi)
    def bool(self, name): return self.E.input_bool(name)
    def cbool(self, name): return bool(self.E.input_bool(name))
    def cplx(self, name, lo=-1000, hi=1000): return SymC(self.real(name + '.re', lo, hi), self.real(name + '.im', lo, hi))
    def _arr(self, shape, f):
        a = np.empty(shape, dtype=object)
        for k in np.ndindex(a.shape): a[k] = f('_'.join(map(str, k)))
        return a.view(snp.SArr)
    def array(self, name, shape, lo=-1000, hi=1000): return self._arr(shape, lambda k: self.real(name + k, lo, hi))
    def carray(self, name, shape, lo=-1000, hi=1000): return self._arr(shape, lambda k: self.cplx(name + k, lo, hi))
    def angles(self, name, shape, lo=None, hi=None): return self._arr(shape, lambda k: self.angle(name + k, lo, hi))
    def mask(self, name, shape):
        a = np.empty(shape, dtype=bool)
        for k in np.ndindex(a.shape): a[k] = self.cbool(name + '_'.join(map(str, k)))
        return a
    def unit(self, name):
        E = self.E; x, y, z = [self.real(name + c, -1, 1) for c in 'xyz']
        self.assume(x*x + y*y + z*z == 1)
        E.rules[sym.v_atom(z)] = sym.P_add(sym.P_const(1), sym.P_neg(sym.P_add(sym.P_mul(x.n, x.n), sym.P_mul(y.n, y.n))))
        return snp.mk([x, y, z])
    def choose(self, name, options):
        i = self.E.choose(len(options))
        self.E.inputs[name] = ('const', i)
        return options[i]
    def numeral(self, name, lo, hi, kind='int'):
        """(text, value): a numeral to be put into a string; int() and float() of it give the variable."""
        v = self.int(name, lo, hi) if kind == 'int' else self.real(name, lo, hi)
        t = '%d' % (90000001 + len(self.E.tokens)) + ('' if kind == 'int' else '.5')
        self.E.tokens[t] = v
        return t, v
    def assume(self, c): self.E.assume(c)
    def floor(self, x): return sym.floor(x)
    def arr(self, x): return snp.mk(x)
    # ---- typed arrays for compiled code
    def bv(self, name, bits, signed=True):
        z = sym.z3.BitVec(name, bits); self.E.inputs[name] = ('bv', z); return z
    def typed(self, name, shape, dtype, how='C', lo=-1000, hi=1000, vals=None):
        from . import cdrv
        t = cdrv.tarr_like(shape, dtype, how, name); dt = np.dtype(dtype)
        for k in np.ndindex(t.shape):
            if how == 'bcast' and k[0]: continue
            nm = name + '_'.join(map(str, k))
            if vals is not None: v = vals[k] if isinstance(vals, np.ndarray) else vals
            elif dt.kind == 'f': v = self.real(nm, lo, hi)
            elif dt.kind == 'c': v = self.cplx(nm, lo, hi)
            elif dt.kind == 'b': v = self.bool(nm)
            else: v = self.bv(nm, 8 * dt.itemsize)
            t.set(k, v)
        return t
    def elem(self, a, k): return a.get(k)
    def pick(self, x, values):
        """The one of the values equal to x, or None (forks)."""
        for v in values:
            if bool(x == v if not sym.z3.is_bv(x) else SymB(x == v)): return v
        return None

class ConcV:
    """Inputs from a table of values; missing ones are drawn from rng."""
    symbolic = False
    def __init__(self, values, rng): self.v, self.rng, self.used = values, rng, {}
    def _get(self, name, f):
        if self.v is not None and name in self.v: x = self.v[name]
        else: x = f()
        self.used[name] = x
        return x
    def real(self, name, lo=-1000, hi=1000):
        def f():
            l, h = (-1000 if lo is None else lo), (1000 if hi is None else hi)
            if self.rng.random() < 0.5 and l <= -2 and h >= 2: l, h = -2, 2
            return self.rng.uniform(l, h)
        return float(self._get(name, f))
    def int(self, name, lo, hi):
        def f():
            if self.rng.random() < 0.2: return self.rng.choice([lo, hi])
            return self.rng.randint(lo, hi)
        return int(self._get(name, f))
    cint = int
    def angle(self, name, lo=None, hi=None):
        return float(self._get(name, lambda: self.rng.uniform(-7 if lo is None else float(lo), 7 if hi is None else float(hi))))
    def bool(self, name): return bool(self._get(name, lambda: self.rng.random() < 0.5))
    cbool = bool
    def cplx(self, name, lo=-1000, hi=1000): return complex(self.real(name + '.re', lo, hi), self.real(name + '.im', lo, hi))
    def _arr(self, shape, f, dt):
        a = np.empty(shape, dtype=dt)
        for k in np.ndindex(a.shape): a[k] = f('_'.join(map(str, k)))
        return a
    def array(self, name, shape, lo=-1000, hi=1000): return self._arr(shape, lambda k: self.real(name + k, lo, hi), float)
    def carray(self, name, shape, lo=-1000, hi=1000): return self._arr(shape, lambda k: self.cplx(name + k, lo, hi), complex)
    def angles(self, name, shape, lo=None, hi=None): return self._arr(shape, lambda k: self.angle(name + k, lo, hi), float)
    def mask(self, name, shape): return self._arr(shape, lambda k: self.cbool(name + k), bool)
    def unit(self, name):
        v = np.array([self._get(name + c, lambda: self.rng.gauss(0, 1)) for c in 'xyz'], dtype=float)
        n = np.sqrt((v**2).sum())
        if n == 0: raise Skip()
        v = v / n
        for c, x in zip('xyz', v): self.used[name + c] = float(x)
        return v
    def numeral(self, name, lo, hi, kind='int'):
        v = self.int(name, lo, hi) if kind == 'int' else self.real(name, lo, hi)
        return ('%d' % v if kind == 'int' else repr(v)), v
    def choose(self, name, options):
        return options[int(self._get(name, lambda: self.rng.randrange(len(options)))) % len(options)]
    def assume(self, c):
        if not c: raise Skip()
    def floor(self, x): return math.floor(x)
    def arr(self, x): return np.array(x)
    def bv(self, name, bits, signed=True):
        def f():
            r = self.rng.random()
            if r < .6: return self.rng.randint(-3, 6)
            return self.rng.getrandbits(bits)
        v = int(self._get(name, f)) & ((1 << bits) - 1)
        return v - (1 << bits) if signed and v >> (bits - 1) else v
    def typed(self, name, shape, dtype, how='C', lo=-1000, hi=1000, vals=None):
        from . import cdrv
        if not hasattr(self, 'guards'): self.guards = []
        base, t = cdrv.layout(shape, dtype, how, cdrv.guarded(self.guards)); dt = np.dtype(dtype)
        for k in np.ndindex(t.shape):
            if how == 'bcast' and k[0]: continue
            nm = name + '_'.join(map(str, k))
            if vals is not None: v = vals[k] if isinstance(vals, np.ndarray) else vals
            elif dt.kind == 'f': v = self.real(nm, lo, hi)
            elif dt.kind == 'c': v = self.cplx(nm, lo, hi)
            elif dt.kind == 'b': v = self.bool(nm)
            else: v = self.bv(nm, 8 * dt.itemsize, dt.kind == 'i')
            t[k] = v
        return t
    def elem(self, a, k): return a[k]
    def pick(self, x, values):
        for v in values:
            if x == v: return v
        return None
ConcV.bool.__name__ = 'bool'

# =========================================================== checkers
def _flat(a, b):
    """Broadcast pairs of elements, or None when shapes disagree."""
    A = a if isinstance(a, np.ndarray) else snp.mk(a) if isinstance(a, (list, tuple)) else None
    B = b if isinstance(b, np.ndarray) else snp.mk(b) if isinstance(b, (list, tuple)) else None
    if A is not None and A.ndim == 0: A = None; a = a[()]
    if B is not None and B.ndim == 0: B = None; b = b[()]
    if A is None and B is None: return [(a, b)]
    if A is None: return [(a, y) for y in np.asarray(B).flat]
    if B is None: return [(x, b) for x in np.asarray(A).flat]
    if A.shape != B.shape: return None
    return list(zip(np.asarray(A).flat, np.asarray(B).flat))

class SymCk:
    symbolic = True
    def __init__(self, E): self.E = E; self.n = 0
    def _ok(self, cond, msg): return self.E.prove(cond, msg)
    def true(self, cond, msg):
        if isinstance(cond, np.ndarray): cond = sym.b_and(*list(cond.flat)) if cond.size else True
        return self._ok(cond, msg)
    def false(self, cond, msg): return self._ok(sym.b_not(cond), msg)
    def eq(self, a, b, msg, tol=None):
        ps = _flat(a, b)
        if ps is None: return self._ok(False, msg + ' (shape %s, expected %s)' % (np.shape(a), np.shape(b)))
        conds = []
        for x, y in ps:
            if isinstance(x, np.generic): x = x.item()
            if isinstance(y, np.generic): y = y.item()
            if isinstance(x, float) and not is_sym(y) or not is_sym(x) and not is_sym(y):
                try: c = abs(x - y) <= 1e-9 * (1 + abs(y)) if not isinstance(x, (str, bytes)) and x is not None and not isinstance(y, (str, bytes)) and y is not None else x == y
                except TypeError: c = x == y
                if not c: return self._ok(False, msg)
                continue
            conds.append((x, y))
        return self.E.prove_eqs(conds, msg)
    def close(self, a, b, msg, tol=1e-6, drop=1e-10):
        """Equal up to rounding of constants: coefficients below drop are dropped (inputs are bounded)."""
        ps = _flat(a, b)
        if ps is None: return self._ok(False, msg + ' (shape %s, expected %s)' % (np.shape(a), np.shape(b)))
        out = []
        for x, y in ps:
            if isinstance(x, np.generic): x = x.item()
            if isinstance(y, np.generic): y = y.item()
            if not is_sym(x) and not is_sym(y):
                if not abs(x - y) <= tol: return self._ok(False, msg)
                continue
            d = sym.SymC.of(x) - sym.SymC.of(y)
            for v in (d.re, d.im):
                v = sym.wrap(v)
                out.append((SymN({m: c for m, c in v.n.items() if abs(c) > drop}, v.d), sym.wrap(0)))
        return self.E.prove_eqs(out, msg)
    def le(self, a, b, msg, tol=None): return self._ineq(a, b, msg, lambda x, y: x <= y)
    def ge(self, a, b, msg, tol=None): return self.le(b, a, msg)
    def lt(self, a, b, msg, tol=None): return self._ineq(a, b, msg, lambda x, y: x < y)
    def gt(self, a, b, msg, tol=None): return self.lt(b, a, msg)
    def _ineq(self, a, b, msg, f):
        ps = _flat(a, b)
        if ps is None: return self._ok(False, msg + ' (shapes)')
        return all([self._ok(f(sym.wrap(x), y), msg) for x, y in ps])
    def shape(self, a, s, msg): return self._ok(tuple(np.shape(a)) == tuple(s), msg + ' (shape %s, expected %s)' % (np.shape(a), s))
    def raises(self, exc, fn, msg):
        try: fn()
        except (EngineLimit, PathAbort): raise
        except exc: self.E.stats.proved += 1; return True
        except Exception as e:
            return self._ok(False, msg + ' (raised %s)' % type(e).__name__)
        return self._ok(False, msg + ' (not refused)')
    def same_angle(self, a, b, lo, msg, upper=False):
        """a and b are the same angle, both in [lo, lo + 2 pi).  (Equal cosine and sine and one period imply equality.)"""
        a, b = sym.wrap(a), sym.wrap(b); hi = lo + sym.pi_() * 2
        ok = self.E.prove_eqs([(sym.cos(a), sym.cos(b)), (sym.sin(a), sym.sin(b))], msg)
        return ok and self._ok(sym.b_and(a > lo, a <= hi, b > lo, b <= hi) if upper else sym.b_and(a >= lo, a < hi, b >= lo, b < hi), msg + ' (range)')
    def same_dir(self, a, b, msg):
        """Equal modulo a full turn."""
        return self.E.prove_eqs([(sym.cos(a), sym.cos(b)), (sym.sin(a), sym.sin(b))], msg)
    def need(self, obj, *names):
        for n in names:
            if not hasattr(obj, n): raise EngineLimit('no attribute %s' % n)
    def path(self): return None
    def bits(self, a, b, msg):
        """Bit-for-bit equality (integers as bit-vectors, conditions, or numbers)."""
        z = sym.z3
        if isinstance(a, (SymB, bool)) or isinstance(b, (SymB, bool)): return self._ok(SymB(sym.zB(sym.toB(a)) == sym.zB(sym.toB(b))), msg)
        if z.is_bv(a) or z.is_bv(b): return self._ok(SymB(z.simplify(a == b)), msg)
        return self.eq(a, b, msg)
    def guards(self, V, msg): return True           # every access is checked against its object

class ConcCk:
    symbolic = False
    def __init__(self, tol=1e-6): self.tol, self.fails, self.n = tol, [], 0
    def _ok(self, c, msg, detail=''):
        self.n += 1
        if not c: self.fails.append(msg if not detail else msg + ': ' + detail)
        return bool(c)
    def true(self, cond, msg): return self._ok(bool(np.all(np.asarray(cond))), msg)
    def false(self, cond, msg): return self._ok(not np.any(np.asarray(cond)), msg)
    def eq(self, a, b, msg, tol=None):
        tol = self.tol if tol is None else tol
        if isinstance(a, (list, tuple)): a = np.array(a)
        if isinstance(b, (list, tuple)): b = np.array(b)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.ndim and b.ndim and a.shape != b.shape:
            return self._ok(False, msg + ' (shape %s, expected %s)' % (a.shape, b.shape))
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)): return self._ok(a == b, msg, '%r vs %r' % (a, b))
        A, B = np.asarray(a), np.asarray(b)
        if A.dtype.kind in 'USO' or B.dtype.kind in 'USO': return self._ok(bool(np.all(A == B)), msg, '%s vs %s' % (str(a)[:200], str(b)[:200]))
        A, B = A.astype(np.complex128), B.astype(np.complex128)
        scale = 1 + max([float(np.max(np.abs(x))) if x.size else 0 for x in (A, B)])
        if not (np.all(np.isfinite(A)) and np.all(np.isfinite(B))):
            same = bool(np.all((A == B) | (np.isnan(A) & np.isnan(B))))
            return self._ok(same and tol is not None and False if not same else True, msg, 'non-finite %s vs %s' % (str(a)[:200], str(b)[:200]))
        d = np.abs(A - B)
        ok = bool(np.all(d <= tol * scale))
        return self._ok(ok, msg, '' if ok else 'got %s expected %s' % (str(a)[:300], str(b)[:300]))
    def close(self, a, b, msg, tol=1e-6, drop=0): return self.eq(a, b, msg, tol)
    def le(self, a, b, msg, tol=None):
        tol = self.tol if tol is None else tol
        A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        s = 1 + np.maximum(np.abs(A), np.abs(B))
        ok = bool(np.all(A <= B + tol * s))
        return self._ok(ok, msg, '' if ok else '%s <= %s fails' % (str(a)[:200], str(b)[:200]))
    def ge(self, a, b, msg, tol=None): return self.le(b, a, msg, tol)
    lt = le
    gt = ge
    def shape(self, a, s, msg): return self._ok(tuple(np.shape(a)) == tuple(s), msg + ' (shape %s, expected %s)' % (np.shape(a), tuple(s)))
    def raises(self, exc, fn, msg):
        try: fn()
        except exc: return self._ok(True, msg)
        except Skip: raise
        except Exception as e: return self._ok(False, msg + ' (raised %s)' % type(e).__name__)
        return self._ok(False, msg + ' (not refused)')
    def bits(self, a, b, msg):
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating, complex)): return self.eq(a, b, msg)
        return self._ok(bool(a == b), msg, '%r vs %r' % (a, b))
    def guards(self, V, msg):
        ok = all((big[:G] == 0xA5).all() and (big[G+nb:] == 0xA5).all() for big, G, nb in getattr(V, 'guards', []))
        return self._ok(ok, msg)
    def same_dir(self, a, b, msg): return self.eq([math.cos(a), math.sin(a)], [math.cos(b), math.sin(b)], msg)
    def same_angle(self, a, b, lo, msg, upper=False):
        self.same_dir(a, b, msg)
        self.ge(a, lo, msg + ' (range)'); return self.le(a, lo + 2*math.pi, msg + ' (range)')
    def need(self, obj, *names):
        for n in names:
            if not hasattr(obj, n): raise Skip()

# =========================================================== scratch build of the real package
class RealPackage:
    symbolic = False
    def __init__(self, root):
        self.root = root; self.np = np
        if root not in sys.path: sys.path.insert(0, root)
    def __getattr__(self, nm):
        if nm.startswith('__') or nm == 'root': raise AttributeError(nm)
        return importlib.import_module('aipy.' + nm)

def scratch_build(repo=None, sanitize=False):
    """Copy the working tree to a scratch folder and build the extensions there."""
    repo = repo or REPO
    d = tempfile.mkdtemp(prefix='aipyv.')
    t = os.path.join(d, 'tree'); os.mkdir(t)
    for n in os.listdir(repo):
        if n in ('.git', 'build', 'tests', 'doc', 'docs', 'scripts', '.pytest_cache'): continue
        s = os.path.join(repo, n)
        if os.path.isdir(s): shutil.copytree(s, os.path.join(t, n), ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.o'), symlinks=True)
        else: shutil.copy2(s, os.path.join(t, n))
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='3.0.2', PIP_NO_INDEX='1', PYTHONDONTWRITEBYTECODE='1',
               PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', HOME=d, LANG='C.UTF-8')
    for k in ('PYTHONPATH', 'CC', 'CXX', 'CFLAGS', 'CXXFLAGS'): env.pop(k, None)
    p = subprocess.run(['/opt/venv/bin/python', 'setup.py', '-q', 'build_ext', '--inplace', '--force', '-j', '4'], cwd=t, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors='replace')[-3000:])
        shutil.rmtree(d, ignore_errors=True)
        raise RuntimeError('build of the scratch copy failed')
    shutil.rmtree(os.path.join(t, 'build'), ignore_errors=True)
    return d, t

# =========================================================== scenarios
class Scenario:
    def __init__(self, name, fn, stubs=None, max_paths=400, timeout_ms=10000, budget=(150, 600), points=(6, 30), models=(12, 40),
                 tol=1e-6, bounds='', concrete_only_msgs=(), real_only=False, isolate=False, thorough_only=False, branch_ms=3000):
        self.branch_ms = branch_ms
        self.name, self.fn, self.stubs = name, fn, stubs or {}
        self.max_paths, self.timeout_ms, self.budget, self.points, self.models = max_paths, timeout_ms, budget, points, models
        self.tol, self.bounds, self.isolate, self.thorough_only = tol, bounds, isolate, thorough_only

def forked(fn, timeout):
    """Run fn(emit) in a forked child; returns (list of emitted objects, status)."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
            if not os.environ.get('VERIF_DEBUG'): os.dup2(dn, 2)
            f = os.fdopen(w, 'wb')
            def emit(o):
                b = pickle.dumps(o); f.write(len(b).to_bytes(8, 'big') + b); f.flush()
            try: fn(emit)
            except BaseException as e: emit(('crash', ''.join(traceback.format_exception(e))[-3000:]))
            f.close(); code = 0
        finally: os._exit(code)
    try: os.setpgid(pid, pid)
    except OSError: pass
    os.close(w)
    buf = b''; end = time.time() + timeout; status = None
    while True:
        left = end - time.time()
        if left <= 0: status = 'timeout'; break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            c = os.read(r, 1 << 16)
            if not c: break
            buf += c
    if status:
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not status: status = 'ok' if st == 0 else 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)
    out = []
    while len(buf) >= 8:
        n = int.from_bytes(buf[:8], 'big')
        if len(buf) < 8 + n: break
        out.append(pickle.loads(buf[8:8+n])); buf = buf[8+n:]
    return out, status

def irseen():
    m = sys.modules.get('vlib.ir')
    return sorted('C: ' + m.demangle(n) for n in m.SEEN) if m else []
def run_symbolic(sc, tier, emit, deadline):
    stats = sym.Stats()
    E = sym.Explorer(max_paths=sc.max_paths * (1 if tier == 'quick' else 4), timeout_ms=sc.timeout_ms, deadline=deadline, stats=stats, branch_ms=sc.branch_ms)
    models = []; nmod = sc.models[tier != 'quick']
    pkg_holder = {}
    reached = [0]; unreached = [0]
    vac = [0]
    def body():
        stubs = {k: (v() if callable(v) and getattr(v, '_fresh', False) else v) for k, v in sc.stubs.items()}
        M = SymPackage(stubs)
        pkg_holder['M'] = M
        M.scratch = None
        V, ck = SymV(E), SymCk(E)
        try: sc.fn(M, V, ck)
        except (EngineLimit, PathAbort): raise
        except ImportError as e: raise EngineLimit('import: %s' % e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO)]
            w = '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else 'harness'
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            E.raised.append('%s in %s: %s' % (type(e).__name__, w, str(e)[:160]))
            E.prove(False, 'raises %s (%s)' % (type(e).__name__, w))
        if len(models) < nmod:
            r, m = E.reachable()
            if m is not None:
                reached[0] += 1
                v = E.values(m)
                if v not in models: models.append(v)
            elif r == sym.z3.unsat: unreached[0] += 1
    E.raised = []
    tr = Tracer(REPO)
    with tr: E.run(body)
    fails = []
    for msg, verdict, vals, path in E.failures:
        fails.append({'msg': msg, 'verdict': verdict, 'values': vals, 'path': repr(path)[:400]})
    emit(('sym', dict(stats=vars(stats), failures=fails, limits=E.limits, raised=E.raised, truncated=E.truncated, models=models, reached=reached[0],
                      unreached=unreached[0], functions=sorted(tr.seen) + irseen(), files=sorted(pkg_holder['M'].files) if 'M' in pkg_holder else [],
                      extra=E.extra)))

def run_concrete(sc, root, jobs, emit):
    """jobs: list of (tag, values or None, rng seed)."""
    M = RealPackage(root)
    for idx, (tag, values, seed) in enumerate(jobs):
        emit(('start', idx))
        rng = random.Random(seed)
        res = None
        for attempt in range(1 if values is not None else 60):
            V, ck = ConcV(values, rng), ConcCk(sc.tol)
            sd = tempfile.mkdtemp(prefix='aipyr.'); M.scratch = sd; cwd = os.getcwd(); os.chdir(sd)
            try:
                np.random.seed(seed % 2**31); random.seed(seed)
                with np.errstate(all='ignore'):
                    sc.fn(M, V, ck)
                res = ('done', ck.fails, ck.n)
            except Skip: res = ('skip', [], 0)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if f.filename.startswith(root)]
                w = '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else 'harness'
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
                res = ('done', ck.fails + ['raises %s (%s): %s' % (type(e).__name__, w, str(e)[:200])], ck.n)
            finally:
                os.chdir(cwd); shutil.rmtree(sd, ignore_errors=True)
            if res[0] == 'done': break
        emit(('res', idx, res, {k: (v if isinstance(v, (int, float, str, bool)) else repr(v)) for k, v in V.used.items()}))

def concrete_jobs(sc, root, jobs, timeout=120):
    """Run jobs in forked children; a crash of the real code is a failure of the job it happened in."""
    out = {}
    todo = list(range(len(jobs)))
    while todo:
        sub = [jobs[i] for i in todo]
        msgs, status = forked(lambda emit: run_concrete(sc, root, sub, emit), timeout)
        last = None; done = 0
        for m in msgs:
            if m[0] == 'start': last = m[1]
            elif m[0] == 'res': out[todo[m[1]]] = (m[2], m[3]); done = m[1] + 1; last = None
            elif m[0] == 'crash': return out, m[1]
        if last is not None:
            if status == 'timeout': out[todo[last]] = (('timeout', [], 0), jobs[todo[last]][1] or {})
            else: out[todo[last]] = (('done', ['the process died (%s)' % status], 0), jobs[todo[last]][1] or {})
            todo = todo[last+1:]
        else: todo = todo[done:] if done < len(todo) and done else []
    return out, None

def run_scenario(prop, sc, root, tier, seed, hard):
    t0 = time.time()
    q = tier == 'quick'
    budget = min(sc.budget[0 if q else 1], hard)
    res = {'name': sc.name, 'bounds': sc.bounds, 'violations': [], 'inconclusive': [], 'limits': [], 'spurious': []}
    msgs, status = forked(lambda emit: run_symbolic(sc, tier, emit, time.time() + budget), budget + 60)
    S = None
    for m in msgs:
        if m[0] == 'sym': S = m[1]
        elif m[0] == 'crash': res['limits'].append('engine: ' + m[1])
    if S is None:
        res['limits'].append('symbolic run gave no result (%s)' % status)
        S = dict(stats=vars(sym.Stats()), failures=[], limits=[], truncated=True, models=[], reached=0, unreached=0, functions=[], files=[], raised=[], extra={})
    res['limits'] += S['limits']
    res['stats'] = S['stats']; res['functions'] = S['functions']; res['files'] = S['files']; res['truncated'] = S['truncated']
    res['witnesses'] = S['reached']; res['extra'] = S['extra']
    # ---- replay on the real code
    rs = int.from_bytes(hashlib.sha256(('%s/%s/%d' % (prop, sc.name, seed)).encode()).digest()[:4], 'big')
    jobs, kinds = [], []
    perm = {}
    for f in S['failures']:
        k = f['msg']
        perm[k] = perm.get(k, 0) + 1
        if perm[k] > 4: continue
        if f['values'] is not None: jobs.append((('fail', f['msg']), f['values'], rs)); kinds.append('fail')
    for v in S['models']: jobs.append((('model',), v, rs)); kinds.append('model')
    n = sc.points[0 if q else 1]
    if S['failures']: n = max(n, 24)
    elif S['limits'] or S['truncated']: n = max(n, 12)
    for i in range(n): jobs.append((('point',), None, rs + 1 + i)); kinds.append('point')
    out, crash = concrete_jobs(sc, root, jobs)
    if crash: res['limits'].append('replay: ' + crash)
    seen = set(); res['replayed'] = 0; res['replay_checks'] = 0; agree = 0
    for i, (r, used) in sorted(out.items()):
        if r[0] == 'done':
            res['replayed'] += 1; res['replay_checks'] += r[2]
            for msg in r[1]:
                key = msg.split(':')[0]
                if key in seen: continue
                seen.add(key)
                res['violations'].append({'msg': msg, 'values': used, 'seed': jobs[i][2], 'found_by': kinds[i]})
        elif r[0] == 'timeout':
            if 'timeout' not in seen: res['limits'].append('replay timed out')
    got = set()
    for f in S['failures']:
        if any(v['msg'].split(':')[0] == f['msg'].split(':')[0] for v in res['violations']): continue
        if f['msg'] in got: continue
        got.add(f['msg'])
        res['inconclusive'].append({'msg': f['msg'], 'verdict': f['verdict'], 'values': f['values'], 'note': 'not reproduced on the real code'})
    res['raised'] = S['raised'][:5]
    res['sample'] = S['models'][:1]
    res['wall_s'] = round(time.time() - t0, 2)
    return res

# =========================================================== known findings
def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                # finding: property=Cxx scenario=<name> msg=<text>
                a = l.split(' scenario=', 1)[1]; s, m = a.split(' msg=', 1)
                out.append((s, m))
    return out

def main(prop, mod, replay=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    cap = 640 if tier == 'quick' else 6600
    only = os.environ.get('VERIF_ONLY')
    try: d, root = scratch_build()
    except (RuntimeError, subprocess.TimeoutExpired) as e:
        print('check %s: %s' % (prop, e)); return 2
    try:
        if hasattr(mod, 'PREPARE'): mod.PREPARE(root, tier)
        scs = [s for s in mod.SCENARIOS if (not only or s.name == only) and (tier != 'quick' or not s.thorough_only)]
        if replay:
            j = json.load(open(replay))
            sc = next(s for s in mod.SCENARIOS if s.name == j['scenario'])
            out, crash = concrete_jobs(sc, root, [(('replay',), j['values'], j['seed'])])
            print(out.get(0), crash or '')
            return 1 if out.get(0) and out[0][0][1] else 0
        with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as tp:
            futs = []
            for s in scs:
                futs.append(tp.submit(lambda s=s: run_scenario(prop, s, root, tier, seed, max(20, cap - (time.time() - t0)))))
            results = [f.result() for f in futs]
    finally: shutil.rmtree(d, ignore_errors=True)
    # ---- report
    kn = known(prop); nviol = 0
    tot = sym.Stats()
    for r in results:
        for k, v in r['stats'].items(): setattr(tot, k, getattr(tot, k, 0) + v)
        for v in r['violations']:
            if any(s == r['name'] and v['msg'].startswith(m) for s, m in kn):
                print('KNOWN-FINDING: property=%s %s / %s' % (prop, r['name'], v['msg'])); v['known'] = True; continue
            nviol += 1
            rp = os.path.join(EVID, 'replay_%s_%d.json' % (prop, nviol))
            json.dump({'property': prop, 'scenario': r['name'], 'msg': v['msg'], 'values': v['values'], 'seed': v['seed'], 'found_by': v['found_by'],
                       'how': 'python run.py %s --replay %s' % (prop, rp)}, open(rp, 'w'), indent=1, default=repr)
            print('%s/%s: %s' % (prop, r['name'], v['msg'][:400]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        for v in r['inconclusive']: print('note %s/%s: undecided (%s): %s' % (prop, r['name'], v['verdict'], v['msg'][:200]))
        for v in sorted(set(r['limits'])): print('note %s/%s: limit: %s' % (prop, r['name'], v[-600:]))
        for v in r['raised']: print('note %s/%s: symbolic run: %s' % (prop, r['name'], v[:300]))
        if r['truncated']: print('note %s/%s: exploration cut off by its budget' % (prop, r['name']))
    oblig = tot.proved + tot.sat + tot.unknown
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', '') + ' Symbolic execution of the current sources; every obligation is a solver query over all values within the bounds; '
                'models of every explored path and of every refuted obligation are replayed on a fresh build of the real package.',
            'functions_encoded': sorted({f for r in results for f in r['functions']}),
            'source_files': sorted({f for r in results for f in r['files']}),
            'obligations': oblig, 'discharged': tot.proved, 'refuted_or_unknown': tot.sat + tot.unknown,
            'paths': tot.paths, 'forks': tot.forks, 'queries': tot.queries, 'solver_s': round(tot.solver_s, 2), 'reachability_witnesses': sum(r['witnesses'] for r in results),
            'replays_on_real_code': sum(r['replayed'] for r in results), 'replayed_assertions': sum(r['replay_checks'] for r in results),
            'bounds': getattr(mod, 'BOUNDS', ''), 'outside': getattr(mod, 'OUTSIDE', ''),
            'samples': [{'scenario': r['name'], 'inputs': r['sample'][0]} for r in results if r['sample']][:4],
            'scenarios': [{k: r.get(k) for k in ('name', 'bounds', 'wall_s', 'truncated', 'witnesses', 'replayed', 'extra')} |
                          {'paths': r['stats']['paths'], 'proved': r['stats']['proved'], 'queries': r['stats']['queries'], 'solver_s': round(r['stats']['solver_s'], 2),
                           'inconclusive': r['inconclusive'][:5], 'limits': [l[-300:] for l in sorted(set(r['limits']))[:5]]} for r in results],
        },
        'assumptions': getattr(mod, 'ASSUMES', []) + ['floating-point arithmetic is encoded as exact real arithmetic unless the scenario says otherwise'] * (not getattr(mod, 'EXACT_BITS', False)),
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, default=repr)
    print('%s: %d scenarios, %d paths, %d obligations, %d discharged, %d queries, %.1f s solver, %d replays, %d violations, %.0f s' % (
        prop, len(results), tot.paths, oblig, tot.proved, tot.queries, tot.solver_s, ev['coverage']['replays_on_real_code'], nviol, time.time() - t0))
    if nviol: return 1
    if not tot.proved and not ev['coverage']['replays_on_real_code']: return 3
    return 0
