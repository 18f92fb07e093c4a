"""Loads the current sources of /repo/aipy as symbolically executable modules."""
import ast, sys, os, types, builtins, fractions, re
from . import sym, snp
from .sym import SymN, SymC, SymB, is_sym, EngineLimit

REPO = os.environ.get('AIPY_REPO', '/repo')

# ---- calls whose builtin versions insist on concrete numbers
def _token(x):
    """A numeral written into a string by SymV.numeral stands for a solver variable."""
    return sym.CUR.tokens.get(x.strip()) if isinstance(x, str) and sym.CUR is not None and sym.CUR.tokens else None
def s_float(x=0.0):
    t = _token(x)
    if t is not None: return t if not t.isint else snp.cast(t, float)
    if isinstance(x, (SymN, SymB)): return snp.cast(x, float)
    if isinstance(x, snp.SArr) and x.size == 1: return s_float(x.reshape(-1)[0])
    return float(x)
def s_int(x=0, *a):
    if a: return int(x, *a)
    t = _token(x)
    if t is not None:
        if not t.isint: raise ValueError('invalid literal for int()')
        return t
    if isinstance(x, (SymN, SymB)):
        v = sym.trunc(sym.wrap(x))
        return int(v.cval()) if v.isconst() else v
    if isinstance(x, snp.SArr) and x.size == 1: return s_int(x.reshape(-1)[0])
    return int(x)
def s_complex(x=0, y=None):
    if is_sym(x) or is_sym(y): return SymC.of(x) if y is None else SymC.of(x) + SymC(0, 1) * y
    return complex(x) if y is None else complex(x, y)
def s_isinstance(x, t):
    if isinstance(x, (SymN, SymB, SymC)):
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            if c is float and isinstance(x, SymN) and not x.isint: return True
            if c is int and isinstance(x, SymN) and x.isint: return True
            if c is complex and isinstance(x, SymC): return True
            if c is bool and isinstance(x, SymB): return True
    return isinstance(x, t)
def s_type(x):
    c = sys.modules.get('vlib.cdrv')
    if c is not None and isinstance(x, (c.SStr, c.SBytes)): return str if isinstance(x, str) else bytes
    return type(x)
def s_join(o, it):
    """bytes/str.join with symbolic characters."""
    c = sys.modules.get('vlib.cdrv')
    if c is None or not isinstance(o, (str, bytes)): return o.join(it)
    it = list(it)
    if not any(isinstance(x, (c.SBytes, c.SStr)) for x in it) and not isinstance(o, (c.SBytes, c.SStr)): return o.join(it)
    f = lambda x: list(x.b) if isinstance(x, (c.SBytes, c.SStr)) else list(x) if isinstance(x, bytes) else list(x.encode('utf-8'))
    r = []
    for i, x in enumerate(it):
        if i: r += f(o)
        if isinstance(x, str) != isinstance(o, str): raise TypeError('sequence item of the wrong type')
        r += f(x)
    return c.SBytes.of(r) if isinstance(o, bytes) else c.sstr(r)
def s_str(x='', *a):
    c = sys.modules.get('vlib.cdrv')
    if c is not None and isinstance(x, c.SBytes) and a: return x.decode(*a)
    if c is not None and isinstance(x, c.SStr): return x
    return str(x, *a)
def s_max(*a, **k): return builtins.max(*a, **k)
CALLS = {'float': '_vs_float', 'int': '_vs_int', 'complex': '_vs_complex', 'isinstance': '_vs_isinstance'}
# str() itself is only replaced where it is called with two arguments (it is also used as a type)

class Tr(ast.NodeTransformer):
    def _fn(self, a):
        return ast.copy_location(ast.Name(CALLS[a.id], ast.Load()), a) if isinstance(a, ast.Name) and a.id in ('int', 'float', 'complex') else a
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS:
            n.func = ast.copy_location(ast.Name(CALLS[n.func.id], ast.Load()), n.func)
        elif isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1 and not n.keywords: n.func = ast.copy_location(ast.Name('_vs_type', ast.Load()), n.func)
        elif isinstance(n.func, ast.Name) and n.func.id == 'str' and len(n.args) == 2: n.func = ast.copy_location(ast.Name('_vs_str', ast.Load()), n.func)
        elif isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and not n.keywords and not (isinstance(n.func.value, ast.Attribute) and n.func.value.attr == 'path'):
            n.args = [n.func.value] + n.args; n.func = ast.copy_location(ast.Name('_vs_join', ast.Load()), n.func)
        # functions passed on by name: map(int, ...), key=float, ...
        n.args = [self._fn(a) for a in n.args] if isinstance(n.func, ast.Name) and n.func.id in ('map', 'filter') else n.args
        return n

class _Opaque(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise EngineLimit('compiled function %s.%s is not part of this scenario' % (self.__name__, n))
def _opaque(n):
    m = _Opaque(n)
    if n == '_miriad':
        class UV:
            def __init__(self, *a, **k): raise EngineLimit('data sets are not part of this scenario')
        m.UV = UV; m.MAXCHAN = 32768
    if n == '_dsp': m.__all__ = []
    return m

class SymPackage:
    """Attribute access loads the module of that name from /repo/aipy."""
    def __init__(self, stubs=None, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.stubs = {'numpy': snp.numpy_shim, 'math': snp.math_shim}
        self.substubs = {}         # names inside the package replaced by contracts (_dsp, utils, ...)
        for n in ('_dsp', '_deconv', 'utils', '_miriad'): self.substubs[n] = _opaque(n)
        self.functions = set()
        self.files = set()
        for k, v in (stubs or {}).items():
            if k.startswith('aipy.'): self.substubs[k[5:]] = v
            else: self.stubs[k] = v
        self.np = snp.numpy_shim
        self.symbolic = True
    def __getattr__(self, nm):
        if nm.startswith('__'): raise AttributeError(nm)
        return self.load(nm)
    def load(self, nm):
        if nm in self.substubs: return self.substubs[nm]
        if nm in self.mods: return self.mods[nm]
        base = os.path.join(self.repo, 'aipy', *nm.split('.'))
        path = base + '.py'
        ispkg = False
        if not os.path.exists(path):
            path = os.path.join(base, '__init__.py'); ispkg = True
            if not os.path.exists(path): raise ImportError('no stub or source for aipy.' + nm)
        src = open(path).read()
        tree = Tr().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec', dont_inherit=True)
        m = types.ModuleType('saipy.' + nm)
        m.__file__ = path
        m.__package__ = 'saipy.' + nm if ispkg else 'saipy'
        bd = dict(vars(builtins)); bd['__import__'] = self._import
        bd.update({'_vs_float': s_float, '_vs_int': s_int, '_vs_complex': s_complex, '_vs_isinstance': s_isinstance, '_vs_join': s_join, '_vs_str': s_str, '_vs_type': s_type})
        m.__dict__['__builtins__'] = bd
        self.mods[nm] = m
        self.files.add(os.path.relpath(path, self.repo))
        try: exec(code, m.__dict__)
        except BaseException:
            del self.mods[nm]; raise
        return m
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        pk = (globals or {}).get('__package__', 'saipy')
        if level > 0 or name.split('.')[0] in ('aipy', 'saipy'):
            if level > 0:
                parts = pk.split('.')
                parts = parts[:len(parts) - level + 1]
                full = '.'.join(parts[1:] + ([name] if name else []))
            else: full = '.'.join(name.split('.')[1:])
            if not full:
                if not fromlist: return self
                for f in fromlist:
                    pass
                return _From(self)
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try: setattr(m, f, self.load(full + '.' + f))
                        except ImportError: pass
                return m
            return self if level == 0 else m
        if name in self.stubs: return self.stubs[name] if fromlist or '.' not in name else self.stubs[name.split('.')[0]]
        top = name.split('.')[0]
        if not fromlist and top in self.stubs: return self.stubs[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

class _From:
    def __init__(self, p): self.__dict__['p'] = p
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        try: return self.p.load(n)
        except ImportError as e: raise AttributeError(str(e))

# ---- which functions of the target were executed
class Tracer:
    TOOL = 3
    def __init__(self, root): self.root = root; self.seen = set()
    def __enter__(self):
        m = sys.monitoring
        try: m.use_tool_id(self.TOOL, 'verif')
        except ValueError: self.on = False; return self
        self.on = True
        def start(code, off):
            f = code.co_filename
            if f.startswith(self.root): self.seen.add('%s:%s' % (os.path.relpath(f, self.root), code.co_qualname))
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self
    def __exit__(self, *a):
        if self.on:
            m = sys.monitoring
            m.set_events(self.TOOL, 0); m.register_callback(self.TOOL, m.events.PY_START, None); m.free_tool_id(self.TOOL)
