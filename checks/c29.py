from vlib.harness import Scenario
from checks.common import *
BOUNDS = 'antenna strings of up to 3 parts with any antenna numbers 0 to 2046, signs and feed letters, groups of two, arrays of 1 to 4 antennas; default polarization none, one or two'
OUTSIDE = 'strings the grammar does not admit'
EXPLANATION = 'parse_ants and uv_selector executed on strings whose numerals stand for symbolic antenna numbers; the selections issued are recorded and compared.'

class UV:
    def __init__(self, n): self.n, self.calls = n, []
    def __getitem__(self, k):
        assert k == 'nants'; return self.n
    def select(self, name, n1, n2, include=True): self.calls.append((name, n1, n2, include))

def ant(V, name, letters=('', 'x', 'y'), signs=('', '-'), hi=2046):
    """(text, include, number, feed)"""
    t, v = V.numeral(name, 0, hi); s = V.choose(name + '.sign', list(signs)); l = V.choose(name + '.feed', list(letters))
    return s + t + l, 0 if s else 1, v, l
def ordered(V, i, j, pi, pj):
    """The ordered pair and its feeds."""
    if i > j: return j, i, pj, pi
    return i, j, pi, pj
def expect(V, A, B):
    """Entries for a pair of antennas: (i, j, include, pol)."""
    i, j, pi, pj = ordered(V, A[2], B[2], A[3], B[3])
    inc = 1 if A[1] and B[1] else 0
    if not pi and not pj: return [(i, j, inc, -1)]
    return [(i, j, inc, a + b) for a in (pi or 'xy') for b in (pj or 'xy')]
def check(M, ck, got, exp, msg):
    ck.true(len(got) == len(exp), msg + ' (number)')
    if len(got) != len(exp): return
    todo = list(exp)
    for bl, inc, pol in got:
        i, j = M.miriad.bl2ij(bl)
        for k, e in enumerate(todo):
            if e[2] == inc and e[3] == pol and bool(M.np.array(e[0] == i)) and bool(M.np.array(e[1] == j)): break
        else: return ck.true(False, msg)
        ck.eq([i, j], [todo[k][0], todo[k][1]], msg); del todo[k]
    ck.true(not todo, msg)

def single_ant(M, V, ck):
    n = V.choose('n', [1, 2, 4]); A = ant(V, 'a')
    got = M.scripting.parse_ants(A[0], n)
    exp = []
    if A[3]:
        for j in range(n):
            # the antenna's own feed with either feed of the other
            e = expect(V, A, ('', 1, j, ''))
            exp += e
        check(M, ck, [g for g in got], exp, 'every baseline with the antenna, in its feed')
    else:
        for j in range(n): exp += expect(V, A, ('', 1, j, ''))
        check(M, ck, got, exp, 'a single antenna means every baseline with it')

def pair(M, V, ck):
    A, B = ant(V, 'a'), ant(V, 'b')
    check(M, ck, M.scripting.parse_ants(A[0] + '_' + B[0], 4), expect(V, A, B), 'a pair means its baseline, with the sign and feeds written')

def group(M, V, ck):
    L = V.choose('letters', ['', 'x']); f = lambda nm: ant(V, nm, letters=(L, 'y') if L else ('',), hi=200)
    form = V.choose('form', [0, 1, 2])
    if form == 0: A, B = [f('a'), f('b')], [f('c')]; t = '(%s,%s)_%s' % (A[0][0], A[1][0], B[0][0])
    elif form == 1: A, B = [f('a')], [f('c'), f('d')]; t = '%s_(%s,%s)' % (A[0][0], B[0][0], B[1][0])
    else:
        f = lambda nm: ant(V, nm, letters=('',), hi=200); A, B = [f('a'), f('b')], [f('c'), f('d')]; t = '(%s,%s)_(%s,%s)' % (A[0][0], A[1][0], B[0][0], B[1][0])
    V.assume(sep([x[2] for x in A + B], V))
    check(M, ck, M.scripting.parse_ants(t, 4), [e for a in A for b in B for e in expect(V, a, b)], 'groups mean their cross product')
def sep(v, V):
    c = True
    for x, y in zip(v, v[1:]): c = (x < y) if c is True else c & (x < y)
    return c

def several(M, V, ck):
    a, b, c = [ant(V, k, letters=('',), hi=2046) for k in 'abc']
    P = M.scripting.parse_ants
    check(M, ck, P('%s_%s,%s_%s' % (a[0], b[0], b[0], c[0]), 4), expect(V, a, b) + expect(V, b, c), 'parts are listed together')
def words(M, V, ck):
    P = M.scripting.parse_ants; n = V.choose('n', [1, 4]); A = ant(V, 'a', letters=('',), signs=('',))
    ck.true(P('all', n) == [] and P('%s_1,all' % A[0], n) == [], "'all' is no restriction")
    ck.true(P('auto', n) == [('auto', 1, -1)], "'auto' means autocorrelations"); ck.true(P('cross', n) == [('auto', 0, -1)], "'cross' means everything else")
    g = P('cross,-%s_7' % A[0], n); ck.true(len(g) == 2 and g[0] == ('auto', 0, -1), 'words combine with baselines')
    check(M, ck, g[1:], expect(V, (0, 0, A[2], ''), ('', 1, 7, '')), 'words combine with baselines')
    g = P('%s_7,auto' % A[0], n); ck.true(len(g) == 2 and g[1] == ('auto', 1, -1), 'baselines combine with words')
    for bad in ('foo', '(1_2)_3'): ck.raises(ValueError, lambda: P(bad, n), 'anything else is refused')

POLS = {'xx': -5, 'yy': -6, 'xy': -7, 'yx': -8}
def groups(calls):
    """Selections by clause: [(joined by, calls)]."""
    out = [(None, [])]
    for c in calls:
        if c[0] in ('or', 'and'): out.append((c[0], []))
        else: out[-1][1].append(c)
    return out
def applied(M, V, ck):
    """Selections issued for parsed strings."""
    forms = V.choose('form', ['pair', 'pairpol', 'two', 'auto', 'cross', 'crossminus', 'none'])
    dp = V.choose('default', [-1, 'xx', 'xy', 'xx,yy']); uv = UV(3)
    A, B = ant(V, 'a', letters=('',), signs=('', '-')), ant(V, 'b', letters=('',), signs=('',))
    if forms == 'none':
        M.scripting.uv_selector(uv, -1, dp); want = []
        got = groups(uv.calls); ck.true(len(got) == 1, 'only polarizations'); pols(ck, got[0][1], dp, -1); ck.true(all(c[0] == 'polarization' for c in got[0][1]), 'only polarizations'); return
    if forms == 'pairpol': t, exp = A[0] + 'x_' + B[0] + 'y', expect(V, (0, A[1], A[2], 'x'), ('', 1, B[2], 'y'))
    elif forms == 'two': t, exp = A[0] + '_' + B[0] + ',3_4', expect(V, A, B) + [(3, 4, 1, -1)]
    elif forms == 'auto': t, exp = 'auto', [('auto', 1)]
    elif forms == 'cross': t, exp = 'cross', [('auto', 0)]
    elif forms == 'crossminus': t, exp = 'cross,-' + B[0] + '_' + '5', [('auto', 0)] + expect(V, ('', 0, B[2], ''), ('', 1, 5, ''))
    else: t, exp = A[0] + '_' + B[0], expect(V, A, B)
    src = V.choose('given', ['string', 'list'])
    M.scripting.uv_selector(uv, t if src == 'string' else M.scripting.parse_ants(t, 3), dp)
    got = groups(uv.calls); ck.true(len(got) == len(exp), 'one clause per entry')
    for k, ((joined, cs), e) in enumerate(zip(got, exp)):
        inc = e[1] if e[0] == 'auto' else e[2]
        if k: ck.true(joined == ('or' if inc else 'and'), 'included entries widen, excluded entries narrow the selection')
        main = [c for c in cs if c[0] != 'polarization']; ck.true(len(main) == 1, 'one antenna selection per clause')
        if e[0] == 'auto': ck.true(main[0][0] == 'auto' and bool(main[0][3]) == bool(e[1]), 'auto or cross selection'); pols(ck, cs, dp, -1)
        else:
            ck.true(main[0][0] == 'antennae' and bool(main[0][3]) == bool(e[2]), 'antenna selection with its sign')
            i, j = main[0][1], main[0][2]
            if i > j: i, j = j, i
            ck.eq([i, j], [e[0], e[1]], 'the antennas of the entry'); pols(ck, cs, dp, e[3])
def pols(ck, calls, default, own):
    want = own if own != -1 else default
    want = [] if want == -1 else [POLS[p] for p in want.split(',')]
    got = [c for c in calls if c[0] == 'polarization']
    ck.true(sorted(c[1] for c in got) == sorted(want) and all(c[3] for c in got), 'the named polarization, or the default where none is named')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (single_ant, pair, group, several, words, applied)]
