from vlib.harness import Scenario
BOUNDS = 'every antenna pair with indices 0 to 2046, every polarization code of the table'
OUTSIDE = 'indices above 2046'
EXPLANATION = 'The integer packing executed on symbolic indices; divisions and remainders are solver terms.'

def pair(M, V, ck):
    m = M.miriad
    i, j = V.int('i', 0, 2046), V.int('j', 0, 2046)
    bl = m.ij2bl(i, j)
    a, b = m.bl2ij(bl)
    lo, hi = (i, j) if i <= j else (j, i)
    ck.eq(a, lo, 'first antenna of the unpacked pair'); ck.eq(b, hi, 'second antenna of the unpacked pair')
    ck.eq(m.ij2bl(j, i), bl, 'the number does not depend on the order of the pair')
    ck.eq(M.phs.ij2bl(i, j), bl, 'the same code everywhere')

def distinct(M, V, ck):
    m = M.miriad
    i, j, k, l = [V.int(n, 0, 2046) for n in 'ijkl']
    V.assume(i <= j); V.assume(k <= l)
    V.assume((i != k) | (j != l))
    ck.true(m.ij2bl(i, j) != m.ij2bl(k, l), 'different pairs have different numbers')

def pol(M, V, ck):
    i, j = V.int('i', 0, 2046), V.int('j', 0, 2046)
    s = M.miriad.str2pol
    p = V.int('p', -8, 4)
    V.assume(p != 0)
    a, b, q = M.pol.blp2ijp(M.pol.ijp2blp(i, j, p))
    lo, hi = (i, j) if i <= j else (j, i)
    ck.eq(a, lo, 'first antenna from the combined code'); ck.eq(b, hi, 'second antenna from the combined code')
    ck.eq(q, p, 'polarization from the combined code')

def names(M, V, ck):
    s, t = M.miriad.str2pol, M.miriad.pol2str
    ck.true(set(s) >= {'I', 'Q', 'U', 'V', 'rr', 'll', 'rl', 'lr', 'xx', 'yy', 'xy', 'yx'}, 'every polarization has a code')
    ck.true(len(set(s.values())) == len(s) and len(t) == len(s), 'codes are distinct')
    n = V.choose('n', sorted(s))
    ck.true(t[s[n]] == n, 'polarization name %s survives the code' % n)


SCENARIOS = [Scenario(f.__name__, f) for f in (pair, distinct, pol, names)]
