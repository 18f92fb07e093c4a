from vlib.harness import Scenario
from checks.common import *
BOUNDS = '1 to 3 data with any coordinates, values, weights and signed square roots of w, any resolution step; one or two weight planes'
OUTSIDE = 'the projection kernel\'s values; more data (groups are formed one after another)'
EXPLANATION = 'ImgW.put and get executed on symbolic coordinates; sorting and grouping fork on the order and distances of w; the groups handed to the gridder are recorded.'

def mk(M, V, k, mf=0, srt=False):
    im = M.img.ImgW(size=4., res=1., wres=V.real('wres', .3, 2), mf_order=mf, verbose=False)
    s = V.array('s', (k,), 0, 6); sg = [V.choose('sg%d' % q, [1, -1]) for q in range(k)]
    w = V.arr([sg[q] * s[q] * s[q] for q in range(k)]); r = [sg[q] * s[q] for q in range(k)]
    for q in range(k):
        V.assume(s[q] > .001)
        for p in range(q): V.assume(((r[q] - r[p]) > .001) | ((r[q] - r[p]) < -.001))
        for p in range(k):
            if not V.symbolic and p != q: V.assume(abs(abs(r[q] - r[p]) - im.wres) > 1e-6)
    u, v = V.array('u', (k,), -2, 2), V.array('v', (k,), -2, 2)
    for q in range(k):
        for p in range(q): V.assume(((u[q] - u[p]) > .01) | ((u[q] - u[p]) < -.01))
    return im, u, v, w, r
class Rec:
    """Records the groups given to Img.put/get in place of the gridder."""
    def __init__(self, M, mf):
        self.M, self.mf, self.puts, self.gets = M, mf, [], []
        self.cls = M.img.Img; self.old = self.cls.put, self.cls.get; R = self
        def put(im, uvw, data, wgts=None, apply=True):
            R.puts.append((uvw, data, wgts, apply)); z = lambda: M.np.zeros((4, 4), dtype=M.np.complex64)
            return z(), [z() for _ in range(mf + 1)]
        def get(im, uvw, uv=None, bm=None):
            u, v, w = uvw; R.gets.append((u, v, w)); return u + 10 * v + 100 * w
        self.cls.put, self.cls.get = put, get
        self.ker = M.img.ImgW.conv_invker; M.img.ImgW.conv_invker = lambda im, u, v, w: M.np.ones((4, 4), dtype=M.np.complex64)
    def undo(self): self.cls.put, self.cls.get = self.old; self.M.img.ImgW.conv_invker = self.ker

def match(ck, x, cands):
    """Which of the candidates is x (an input variable carried along unchanged)?"""
    for k, c in enumerate(cands):
        if ck.symbolic:
            if hasattr(x, 'key') and x.key() == c.key(): return k
        elif x == c: return k
    return None
def put1(M, V, ck): put(M, V, ck, V.choose('k', [1, 2]), V.choose('mf', [0, 1]))
def put3(M, V, ck): put(M, V, ck, 3, 0)
def put(M, V, ck, k, mf):
    im, u, v, w, r = mk(M, V, k, mf); d = V.carray('d', (k,), -9, 9); W = [V.array('wt%d_' % q, (k,), 1, 9) for q in range(mf + 1)]
    mode = V.choose('wgts', ['default', 'given']) if k < 3 else 'given'
    R = Rec(M, mf)
    try: im.put((u, v, w), d, **({} if mode == 'default' else {'wgts': list(W)}))
    finally: R.undo()
    seen = []; last = None
    for (gu, gv, gw), gd, gwt, ap in R.puts:
        ck.true(not ap, 'groups are projected before they are added'); n = len(gd); ck.true(n > 0, 'no group is empty')
        ck.true(len(gu) == n and len(gv) == n and len(gw) == n and len(gwt) == mf + 1 and all(len(t) == n for t in gwt), 'coordinates and weights go with the data')
        ids = []
        for q in range(n):
            i = match(ck, gu[q], list(u))
            ck.true(i is not None, 'every gridded coordinate is one given')
            if i is None: return
            ids.append(i)
            ck.eq(gv[q], v[i], 'v goes with its datum'); ck.eq(gw[q], w[i], 'w goes with its datum'); ck.eq(gd[q], d[i], 'the value goes with its coordinates')
            for t in range(mf + 1): ck.eq(gwt[t][q], W[t][i] if mode == 'given' else (1. if t == 0 else 0.), 'the weight goes with its datum')
        for a in ids:
            for b in ids: ck.lt(r[a] - r[b], im.wres, 'a group spans less than one resolution step')
        seen += ids
    ck.true(sorted(seen) == list(range(k)), 'every datum is gridded exactly once')
    for a, b in zip(seen, seen[1:]): ck.le(r[a], r[b], 'data are taken in the order of w')

def get(M, V, ck):
    k = V.choose('k', [1, 2, 3]); im, u, v, w, r = mk(M, V, k)
    R = Rec(M, 0)
    try: x = im.get((u, v, w))
    finally: R.undo()
    ck.shape(x, (k,), 'one value per requested coordinate')
    for q in range(k): ck.eq(x[q], u[q] + 10 * v[q] + 100 * w[q], 'values come back in the requested order', tol=1e-5)
    n = sum(len(g[0]) for g in R.gets); ck.true(n == k, 'every coordinate is read once')
    for g in R.gets:
        for a in range(len(g[0])):
            for b in range(len(g[0])):
                i, j = match(ck, g[0][a], list(u)), match(ck, g[0][b], list(u))
                if i is not None and j is not None: ck.lt(r[i] - r[j], im.wres, 'a group spans less than one resolution step')

def planes(M, V, ck):
    """The planes of every group are added to what the image holds, each through the kernel of its own w."""
    mf = V.choose('mf', [0, 1]); k = 2 if mf else V.choose('k', [1, 2, 3]); im, u, v, w, r = mk(M, V, k, mf); d = V.carray('d', (k,), -9, 9)
    W = [V.array('wt%d_' % q, (k,), 1, 9) for q in range(mf + 1)]; old = V.cplx('old', -9, 9); oldb = [V.real('oldb%d' % q, -9, 9) for q in range(mf + 1)]
    im.uv[1, 2] += old
    for q in range(mf + 1): im.bm[q][2, 1] += oldb[q]
    cls = M.img.Img; R = Rec(M, mf); ws = []
    def put(self, uvw, data, wgts=None, apply=True):
        uv, bm = M.np.zeros((4, 4), dtype=M.np.complex64), [M.np.zeros((4, 4), dtype=M.np.complex64) for _ in range(mf + 1)]
        for q in range(len(data)):
            uv[0, 3] += data[q]
            for t in range(mf + 1): bm[t][3, 0] += wgts[t][q]
        R.puts.append((uvw, data, wgts, apply)); return uv, bm
    cls.put = put
    def ker(self, u, v, w): ws.append(w); return M.np.ones((4, 4), dtype=M.np.complex64)
    M.img.ImgW.conv_invker = ker
    try: im.put((u, v, w), d, list(W))
    finally: R.undo()
    for c in np.ndindex((4, 4)):
        ck.eq(im.uv[c], old if c == (1, 2) else sum(d[q] for q in range(k)) if c == (0, 3) else 0., 'the data of all groups are added to the image', tol=1e-4)
        for t in range(mf + 1): ck.eq(im.bm[t][c], oldb[t] if c == (2, 1) else sum(W[t][q] for q in range(k)) if c == (3, 0) else 0., 'the weights of all groups are added to their plane', tol=1e-4)
    for x in ws:
        ck.true(any(ck.symbolic or min(g[0][2]) - 1e-4 <= x <= max(g[0][2]) + 1e-4 for g in R.puts), 'the kernel is for a w of its group')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS, tol=1e-5) for g in (put1, put3, get, planes)]
