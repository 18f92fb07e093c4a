from vlib.harness import Scenario
from checks.common import *
from vlib import sym
import types, random as _random
BOUNDS = 'packings of 1 to 64 points (thorough 200); bit reversal of any number of up to 7 bits; bit-reversed orders and facet lists of 1 to 40 points; every outcome of the shuffling for up to 9 points'
OUTSIDE = 'larger N; the quality of the spread'
EXPLANATION = 'pack_sphere, bit reversal and facet_centers executed with the numbers to be reversed as solver variables and every shuffle outcome as a branch.'
def rnd():
    m = types.ModuleType('random')
    def shuffle(x):
        for i in range(len(x) - 1, 0, -1):
            j = sym.CUR.choose(i + 1)
            x[i], x[j] = x[j], x[i]
    def fixed(x): x[:] = list(x)[::-1]
    m.seed = lambda *a: None
    m.shuffle = shuffle; m._fixed = fixed; m._all = shuffle
    return m
rnd._fresh = True
S = dict(STUBS, random=rnd)
def pts(M, N):
    p = M.map.pack_sphere(N); return [[p[c][k] for k in range(N)] for c in range(3)] if np.shape(p) == (3, N) else None
def pack(M, V, ck):
    N = V.cint('N', 1, 64); 
    p = M.map.pack_sphere(N); ck.shape(p, (3, N), 'N points of three coordinates')
    if np.shape(p) != (3, N): return
    for k in range(N):
        ck.close(p[2][k], -1 + (2 * k + 1) / N, 'heights are equally spaced from south to north')
        ck.close(p[0][k]**2 + p[1][k]**2 + p[2][k]**2, 1, 'unit vectors')
    if N > 1: ck.true(all(M_lt(p[2][k], p[2][k + 1]) for k in range(N - 1)), 'in order from south to north')
def spiral(M, V, ck):
    """Neighbours are one golden angle apart."""
    N = V.cint('N', 1, 64); p = M.map.pack_sphere(N); ck.shape(p, (3, N), 'N points of three coordinates')
    if np.shape(p) != (3, N): return
    g, s = np.cos(np.pi * (3 - 5**.5)), np.sin(np.pi * (3 - 5**.5))
    for k in range(1, N):
        c = p[0][k] * p[0][k-1] + p[1][k] * p[1][k-1]
        r = ((1 - (-1 + (2*k + 1)/N)**2) * (1 - (-1 + (2*k - 1)/N)**2))**.5
        ck.close(c, r * g, 'neighbours are one golden angle apart'); ck.close(p[0][k-1] * p[1][k] - p[1][k-1] * p[0][k], r * s, 'in the same sense')
def M_lt(a, b): return bool(a < b)
def reverse(M, V, ck):
    """Any number: the reversed number has the same bits in the opposite order."""
    nb = V.cint('nb', 1, 7); x = V.int('x', 0, 2**nb - 1)
    r = M.map._bit_reverse(V.arr([x]), nbits=nb)[0]
    ck.true((r >= 0) & (r < 2**nb) if not M.symbolic else sym.b_and(r >= 0, r < 2**nb), 'in range')
    for b in range(nb): ck.eq((r // 2**b) % 2, (x // 2**(nb - 1 - b)) % 2, 'bit by bit')
    rr = M.map._bit_reverse(V.arr([r]), nbits=nb)[0]
    ck.eq(rr, x, 'reversing twice gives the number back')
def order(M, V, ck):
    N = V.cint('N', 1, 40); o = M.map._bit_reverse_order(N)
    ck.true(sorted(int(x) for x in o) == list(range(N)), 'each of 0..N-1 exactly once')
    ck.true(np.asarray(o).dtype.kind in 'iuO', 'as integers')
def facets(M, V, ck):
    """Every outcome of the shuffle."""
    N = V.cint('N', 1, 9); facet(M, V, ck, N)
def facets_large(M, V, ck):
    N = V.cint('N', 10, 40)
    if M.symbolic: M.map.random.shuffle = M.map.random._fixed
    try: facet(M, V, ck, N)
    finally:
        if M.symbolic: M.map.random.shuffle = M.map.random._all
def facet(M, V, ck, N):
    ncrd = V.choose('ncrd', [3, 2])
    p = M.map.pack_sphere(N); ck.shape(p, (3, N), 'N points')
    if np.shape(p) != (3, N): return
    f = M.map.facet_centers(N, ncrd=ncrd)
    ck.shape(f, (ncrd, N), 'as many facets')
    if np.shape(f) != (ncrd, N): return
    used = set()
    if ncrd == 2:
        # as right ascension and declination of the shuffled points; compare as vectors
        ra, dec = f[0], f[1]
        ra, dec = [zval(v) for v in ra], [zval(v) for v in dec]
        f = [[np.cos(dec[k]) * np.cos(ra[k]) for k in range(N)], [np.cos(dec[k]) * np.sin(ra[k]) for k in range(N)], [np.sin(dec[k]) for k in range(N)]]
    z = [zval(f[2][k]) for k in range(N)]
    idx = [round(((v + 1) * N - 1) / 2) for v in z]
    ck.true(sorted(idx) == list(range(N)), 'each point of the packing exactly once')
    for k in range(N): 
        if 0 <= idx[k] < N: ck.close([f[c][k] for c in range(3)], [p[c][idx[k]] for c in range(3)], 'a facet centre is the point of the packing')
def zval(v):
    if isinstance(v, sym.SymN):
        if v.isconst(): return float(v.cval())
        raise sym.EngineLimit('height is not a number %s' % str(v)[:300])
    return float(v)
def shuffle(M, V, ck):
    """Local shuffling permutes and moves nothing out of its chunk."""
    n = V.cint('n', 0, 6); w = V.choose('w', [2, 3]); L = list(range(n)) if V.choose('t', ['list', 'array']) == 'list' else np.arange(n)
    M.map._local_shuffle(L, width=w)
    ck.true(sorted(int(x) for x in L) == list(range(n)), 'a permutation'); ck.true(all(int(L[k]) // w == k // w for k in range(n)), 'within chunks')
SF = dict(S, numpy=FPI['numpy'])
SCENARIOS = [Scenario(g.__name__, g, stubs=S, max_paths=1500) for g in (pack, reverse, order, shuffle)] + [Scenario(g.__name__, g, stubs=SF, max_paths=1500) for g in (spiral, facets, facets_large)]
