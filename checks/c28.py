from vlib.harness import Scenario
from checks.common import *
BOUNDS = 'channel strings of up to 3 parts with any channel numbers 0 to 5 (start), spans up to 5 and strides 1 to 3; parameter strings of up to 3 entries with any numeric values; source strings of every form with any cutoff values'
OUTSIDE = 'names containing separators; the meaning of sexagesimal text, which is ephem\'s'
EXPLANATION = 'The parsers executed on strings in which numerals stand for symbolic numbers; channel counts fork.'

def part(V, k, form):
    """(text, expected list) of one part of a channel string."""
    a, va = V.numeral('a%d' % k, 0, 5)
    va = int(va) if not V.symbolic else va.__index__()
    if form == 0: return a, [va]
    b, vb = V.numeral('b%d' % k, 0, 6); V.assume(vb >= va); vb = int(vb) if not V.symbolic else vb.__index__()
    if form == 1: return a + '_' + b, list(range(va, vb + 1))
    c, vc = V.numeral('c%d' % k, 1, 3); vc = int(vc) if not V.symbolic else vc.__index__()
    return '%s_%s_%s' % (a, b, c), list(range(va, vb + 1, vc))
def same(ck, got, want, msg):
    ck.shape(got, (len(want),), msg)
    if len(want) and len(got) == len(want): ck.eq(list(got), want, msg)
def chans1(M, V, ck):
    """One part of each form."""
    t, w = part(V, 0, V.choose('form', [0, 1, 2]))
    same(ck, M.np.array(M.scripting.parse_chans(t, 16)), w, 'the listed channels and inclusive ranges, in order')
    l = M.scripting.parse_chans(t, 16, concat=False); ck.true(len(l) == 1, 'one array per part'); same(ck, M.np.array(l[0]).reshape((-1,)), w, 'the channels of each part')
def chans3(M, V, ck):
    """Parts of different forms in order; values of single channels are fully symbolic."""
    parts = []
    for k, form in enumerate(V.choose('forms', [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 1)])):
        if form == 0:
            t, v = V.numeral('s%d' % k, 0, 1023); parts.append((t, [v]))
        else: parts.append(('3_7', list(range(3, 8))) if form == 1 else ('2_9_3', [2, 5, 8]))
    s = ','.join(t for t, _ in parts)
    want = [x for _, w in parts for x in w]
    l = M.scripting.parse_chans(s, 1024, concat=False); ck.true(len(l) == 3, 'one array per part')
    for (t, w), g in zip(parts, l): same(ck, M.np.array(g).reshape((-1,)), w, 'the channels of each part')
    if all(len(w) != 1 for t, w in parts) or True:
        try: g = M.scripting.parse_chans(s, 1024)
        except ValueError: g = None
        if g is None: ck.true(False, 'mixed lists of channels and ranges are joined')
        else: same(ck, g, want, 'parts are joined in order')
def allchans(M, V, ck):
    n = V.choose('n', [1, 2, 16])
    same(ck, M.scripting.parse_chans('all', n), list(range(n)), "'all' yields every channel")
    l = M.scripting.parse_chans('all', n, concat=False); ck.true(len(l) == 1, "'all' is one part"); same(ck, l[0], list(range(n)), "'all' yields every channel")
    ck.raises(AssertionError, lambda: M.scripting.parse_chans('1_2_3_4', 16), 'a range of four numbers is refused')
    ck.raises(ValueError, lambda: M.scripting.parse_chans('x', 16), 'a channel that is no number is refused')

def num(V, name): return V.numeral(name, -1000, 1000, 'real')
def want_(ck, d, exp, msg):
    ck.true(sorted(d.keys()) == sorted(exp.keys()), msg + ' (objects)')
    for o in exp:
        if o not in d: return
        ck.true(sorted(d[o].keys()) == sorted(exp[o].keys()), msg + ' (parameters)')
        for p in exp[o]:
            if p not in d[o]: return
            g = d[o][p]; ck.true(len(g) == 2, msg + ' (a pair)')
            for x, y in zip(g, exp[o][p]):
                if y is None: ck.true(x is None, msg + ' (no value)')
                else: ck.true(x is not None, msg + ' (value)'); ck.eq(x, y, msg)
def prms1(M, V, ck):
    """One object, one parameter."""
    (a, A), (b, B) = num(V, 'v'), num(V, 's'); P = M.scripting.parse_prms
    for t, e in (('o=p', (None, None)), ('o=p/' + a, (A, None)), ('o=p/%s/%s' % (a, b), (A, B)), ('o=p//' + b, (None, B)), ('o=p/%s/' % a, (A, None))):
        want_(ck, P(t), {'o': {'p': e}}, 'start value and sigma as written')
def prms2(M, V, ck):
    """Grouped objects or parameters."""
    (a, A), (b, B), (c, C), (d, D) = [num(V, n) for n in 'abcd']; P = M.scripting.parse_prms; N = None
    for s, S in (('o=(p/q)/', lambda x, y: {'o': {'p': x, 'q': y}}), ('(o/r)=p/', lambda x, y: {'o': {'p': x}, 'r': {'p': y}})):
        w = 'one pair per member of the group'
        want_(ck, P('%s(%s/%s)/(%s/%s)' % (s, a, b, c, d)), S((A, C), (B, D)), w)
        want_(ck, P('%s(%s/%s)/%s' % (s, a, b, c)), S((A, C), (B, C)), w)
        want_(ck, P('%s%s/(%s/%s)' % (s, a, c, d)), S((A, C), (A, D)), w)
        want_(ck, P('%s%s' % (s, a)), S((A, N), (A, N)), w)
        want_(ck, P('%s/%s' % (s, c)), S((N, C), (N, C)), w)
        want_(ck, P('%s/(%s/%s)' % (s, c, d)), S((N, C), (N, D)), w)
        want_(ck, P(s[:-1]), S((N, N), (N, N)), w)
        ck.raises(AssertionError, lambda: P('%s(%s/%s/%s)' % (s, a, b, c)), 'as many values as members of the group')
    e = {x: {'p': (A, C), 'q': (A, C)} for x in 'or'}
    want_(ck, P('(o/r)=(p/q)/%s/%s' % (a, c)), e, 'one pair for all of both groups')
    want_(ck, P('(o/r)=(p/q)'), {x: {'p': (N, N), 'q': (N, N)} for x in 'or'}, 'no values for both groups')
    want_(ck, P('(o/r/u)=(p/q)//%s' % c), {x: {'p': (N, C), 'q': (N, C)} for x in 'oru'}, 'one sigma for all of both groups')
    ck.raises(AssertionError, lambda: P('(o/r)=(p/q)/(%s/%s)' % (a, b)), 'values for both groups at once are refused')
def prms3(M, V, ck):
    """Several entries."""
    (a, A), (b, B), (c, C), (d, D) = [num(V, n) for n in 'abcd']; P = M.scripting.parse_prms; N = None
    want_(ck, P('o=p/%s,o=q/%s/%s,r=p' % (a, b, c)), {'o': {'p': (A, N), 'q': (B, C)}, 'r': {'p': (N, N)}}, 'entries of one object are collected')
    want_(ck, P('(o/r)=p/(%s/%s),r=(p/q)/(%s/%s)' % (a, b, c, d)), {'o': {'p': (A, N)}, 'r': {'p': (C, N), 'q': (D, N)}}, 'a later entry overrides an earlier one of the same parameter')
    want_(ck, P('12=bm_poly/%s,cyg=jys//%s' % (a, b)), {'12': {'bm_poly': (A, N)}, 'cyg': {'jys': (N, B)}}, 'numbers and names as objects')

def srcs(M, V, ck):
    P = M.scripting.parse_srcs; (a, A), (b, B) = num(V, 'a'), num(V, 'b')
    cat = V.choose('cat', [('helm,misc', ['helm', 'misc']), ('misc', ['misc'])])
    s, c, k = P('all', cat[0]); ck.true(s is None and c is None and list(k) == cat[1], "'all' means no restriction")
    s, c, k = P('%s/%s' % (a, b), cat[0]); ck.true(s is None and len(c) == 2 and list(k) == cat[1], 'a flux cutoff'); ck.eq(list(c), [A, B], 'flux and frequency of the cutoff')
    s, c, k = P('cyg,12:30:45_40:00,crab,10_-20.5,a_b,12:x_40,1_2_3,vir', cat[0])
    ck.true(c is None and list(k) == cat[1] and len(s) == 8, 'one entry per part')
    ck.true([x for x in s if isinstance(x, str)] == ['cyg', 'crab', 'a_b', '12:x_40', '1_2_3', 'vir'] and [isinstance(x, str) for x in s] == [True, False, True, False, True, True, True, True], 'names stay names, positions become sources, in order')
    for x, (ra, dec) in ((s[1], ('12:30:45', '40:00')), (s[3], ('10', '-20.5'))):
        if isinstance(x, str): continue
        ref = M.fit.RadioFixedBody(ra, dec)
        ck.true(x.src_name == ra + '_' + dec and x._ra == ref._ra and x._dec == ref._dec, 'a position source is at the position written')
        if not V.symbolic:
            h = [float(q) for q in ra.split(':')]; h = sum(q / 60**i for i, q in enumerate(h)); ck.eq(float(x._ra), h * np.pi / 12, 'right ascension in hours', tol=1e-9)
    s, c, k = P('Sun', cat[0]); ck.true(s == ['Sun'] and c is None, 'one name')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (chans1, chans3, allchans, prms1, prms2, prms3, srcs)]
