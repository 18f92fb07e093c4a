from vlib.harness import Scenario
from checks.common import *
BOUNDS = 'dictionaries nested up to 2 levels with up to 3 objects, each holding scalars and sequences (lists or arrays) of 0 to 3 entries, any values'
OUTSIDE = 'deeper nesting and longer sequences'
EXPLANATION = 'flatten_prms and reconstruct_prms executed on dictionaries of symbolic values, for every mix of scalar and sequence parameters in the bounds.'

KINDS = ['scalar', 'list0', 'list1', 'list2', 'list3', 'array1', 'array2']
def val(V, name, kind):
    if kind == 'scalar': return V.real(name)
    n = int(kind[-1]); v = [V.real('%s_%d' % (name, k)) for k in range(n)]
    return V.arr(v) if kind.startswith('array') else v
def flat(v): return list(v) if hasattr(v, '__len__') else [v]
def same(ck, a, b, where):
    if isinstance(b, dict):
        ck.true(isinstance(a, dict) and set(a) == set(b), 'the same keys at %s' % where)
        if isinstance(a, dict) and set(a) == set(b):
            for k in b: same(ck, a[k], b[k], where)
        return
    if hasattr(b, '__len__'):
        if not ck.true(hasattr(a, '__len__') and len(a) == len(b), 'a sequence is rebuilt as a sequence of the same length'): return
        for x, y in zip(a, b): ck.eq(x, y, 'sequence values survive')
    else:
        if not ck.true(not hasattr(a, '__len__'), 'a scalar is rebuilt as a scalar'): return
        ck.eq(a, b, 'scalar values survive')
def count(d): return sum(count(v) if isinstance(v, dict) else len(flat(v)) for v in d.values())

def pair(M, V, ck):
    """Two parameters of one object, every mix of kinds."""
    d = {'0': {'b': val(V, 'b', V.choose('kb', KINDS)), 'a': val(V, 'a', V.choose('ka', KINDS))}}
    roundtrip(M, V, ck, d)
def roundtrip(M, V, ck, d):
    lst, keys = M.fit.flatten_prms(d)
    ck.eq(len(lst), count(d), 'one list position per number')
    r = M.fit.reconstruct_prms(list(lst), keys)
    same(ck, r, d, 'top')
    # replace every entry: the new values land where the old ones were
    lst2 = [V.real('n%d' % k) for k in range(len(lst))]
    r2 = M.fit.reconstruct_prms(lst2, keys)
    back, keys2 = M.fit.flatten_prms(r2)
    ck.eq(len(back), len(lst2), 'as many numbers after rebuilding')
    for x, y in zip(back, lst2): ck.eq(x, y, 'a rebuilt dictionary flattens to the list it came from')
    # one changed entry changes exactly the parameter at that position
    for k in range(len(lst)):
        l3 = list(lst); l3[k] = V.real('c%d' % k); r3 = M.fit.reconstruct_prms(l3, keys)
        b3, _ = M.fit.flatten_prms(r3)
        for q in range(len(lst)): ck.eq(b3[q] if q < len(b3) else None, l3[q], 'changing one list entry changes exactly that parameter')

def nested(M, V, ck):
    k1, k2, k3 = V.choose('k1', ['scalar', 'list1', 'list2']), V.choose('k2', ['scalar', 'list1', 'array2']), V.choose('k3', ['scalar', 'list0', 'list3'])
    d = {'cyg': {'jys': val(V, 'jys', k1), 'bp': val(V, 'bp', k2)}, '1': {'x': V.real('x'), 'sub': {'q': val(V, 'q', k3), 'r': V.real('r')}}, 'top': val(V, 'top', k1)}
    roundtrip(M, V, ck, d)

def empty(M, V, ck):
    lst, keys = M.fit.flatten_prms({})
    ck.eq(len(lst), 0, 'nothing to flatten'); ck.true(M.fit.reconstruct_prms([], keys) == {}, 'an empty dictionary')
    d = {'a': {}, 'b': {'x': V.real('x')}}
    roundtrip(M, V, ck, d)
    # flattening twice starts afresh
    l1, _ = M.fit.flatten_prms(d); l2, _ = M.fit.flatten_prms(d)
    ck.eq(len(l1), 1, 'first flattening'); ck.eq(len(l2), 1, 'a second flattening starts afresh')

def order(M, V, ck):
    """No position is shared or skipped: distinct positions give back distinct values, whatever the order of keys."""
    names = V.choose('order', [('c', 'a', 'b'), ('b', 'c', 'a'), ('a', 'b', 'c')])
    d = {n: {m: val(V, n + m, V.choose('k' + n, ['scalar', 'list2'])) for m in ('y', 'x')} for n in names}
    roundtrip(M, V, ck, d)

def params(M, V, ck):
    """The parameters of real objects survive."""
    f = freqs(V, 2); A = M.fit
    ants = [A.Antenna(V.real('x%d' % n), V.real('y%d' % n), V.real('z%d' % n), A.Beam(f), phsoff=[V.real('p%d' % n), V.real('q%d' % n)], bp_r=V.array('br%d' % n, (n,)), bp_i=V.array('bi%d' % n, (n,)), amp=V.real('amp%d' % n)) for n in (1, 2)]
    aa = A.AntennaArray((V.angle('lat', -1, 1), V.angle('lon', -1, 1)), ants)
    p = aa.get_params(V.choose('sel', [{'*': '*'}, {'0': ['bp_r', 'x']}, {'1': ['bp_i', 'phsoff', 'amp']}]))
    lst, keys = A.flatten_prms(p)
    r = A.reconstruct_prms(lst, keys)
    same(ck, r, p, 'antenna parameters')
    g = [list(a._gain) for a in aa]; o = [list(a.phsoff) for a in aa]
    aa.set_params(r)
    for k in range(2):
        ck.eq(list(aa[k]._gain), g[k], 'setting the rebuilt parameters changes no gain'); ck.eq(list(aa[k].phsoff), o[k], 'setting the rebuilt parameters changes no phase')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (pair, nested, empty, order, params)]
