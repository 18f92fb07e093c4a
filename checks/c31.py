from vlib.harness import Scenario
from checks.common import *
from vlib import snp, sym
import types
BOUNDS = 'up to 3 visibilities at any uv coordinates with any complex values and weights, grids of 4x4 cells of any resolution, one or two weight planes'
OUTSIDE = 'the weights of the gridding kernel itself (C10, on the compiled code); larger grids'
EXPLANATION = 'Img.put, get and append_hermitian executed on symbolic coordinates, data and weights; the compiled gridder is replaced by a function that determines every coordinate, value and weight from what it adds, and both sides of each comparison use the gridder of the package.'

def _grid(buf, i1, i2, data, footprint=6):
    """Adds to each cell a polynomial in the position that no other position and value give."""
    for k in range(len(data)):
        for c in np.ndindex(buf.shape):
            x, y = i1[k], i2[k]
            buf[c] = buf[c] + data[k] * (1 + (c[0] + 2) * x + (c[1] + 3) * y + (c[0] * 4 + c[1] + 1) * x * y)
def _degrid(buf, i1, i2, data, footprint=6):
    for k in range(len(data)):
        t = 0
        for c in np.ndindex(buf.shape): t = t + buf[c] * (1 + (c[0] + 2) * i1[k] + (c[1] + 3) * i2[k])
        data[k] = data[k] + t
def dsp():
    m = types.ModuleType('aipy._dsp'); m.__all__ = ['grid2D_c', 'degrid2D_c']; m.grid2D_c, m.degrid2D_c = _grid, _degrid
    return m
dsp._fresh = True
S = dict(STUBS); S['aipy._dsp'] = dsp

def mk(M, V, mf=0, n=4):
    res = V.real('res', .3, 3); return M.img.Img(size=n * res, res=res, mf_order=mf), res
def vis(M, V, k, tag=''):
    u, v, w = [V.array(tag + x, (k,), -9, 9) for x in 'uvw']; return (u, v, w), V.carray(tag + 'd', (k,), -9, 9)
def ref(M, im, res, u, v, d):
    b = M.np.zeros(im.shape, dtype=M.np.complex64)
    im._dsp_grid(b, (-v / res).astype(M.np.float32), (u / res).astype(M.np.float32), d.astype(M.np.complex64))
    return b
def setup(M, V, mf=0):
    im, res = mk(M, V, mf); im._dsp_grid = M._dsp.grid2D_c; return im, res

def put(M, V, ck):
    mf = V.choose('mf', [0, 1]); k = V.choose('k', [1, 2]); im, res = setup(M, V, mf)
    (u, v, w), d = vis(M, V, k); keep = [x.copy() for x in (u, v, w, d)]
    mode = V.choose('wgts', ['default', 'list', 'bare'])
    W = [V.array('wt%d_' % q, (k,), 0, 9) for q in range(mf + 1)]
    if mode == 'bare' and mf: return
    kw = {} if mode == 'default' else {'wgts': list(W)} if mode == 'list' else {'wgts': W[0]}
    if mode == 'default': W = [M.np.ones((k,)) if q == 0 else M.np.zeros((k,)) for q in range(mf + 1)]
    uv0, bm0 = im.put((u, v, w), d, apply=False, **kw)
    ck.true(not np.any(im.uv != 0) if not V.symbolic else all(not sym.is_sym(x) and x == 0 for x in im.uv.flat), 'not applying leaves the image unchanged')
    ck.true(len(bm0) == mf + 1, 'one plane per weight term')
    r = im.put((u, v, w), d, **kw)
    e = ref(M, im, res, u, v, d)
    ck.eq(im.uv, e, 'every visibility is gridded at its own coordinates', tol=1e-4); ck.eq(uv0, e, 'not applying returns the same data plane', tol=1e-4)
    ck.true(len(im.bm) == mf + 1, 'one plane per weight term')
    for q in range(mf + 1):
        b = ref(M, im, res, u, v, W[q]); ck.eq(im.bm[q], b, 'weights are gridded into the matching plane', tol=1e-4); ck.eq(bm0[q], b, 'not applying returns the same weight planes', tol=1e-4)
    for x, y in zip((u, v, w, d), keep): ck.eq(x, y, 'the data given are not modified')
def add(M, V, ck):
    """Successive puts add up."""
    im, res = setup(M, V, 1); a, da = vis(M, V, 1, 'a'); b, db = vis(M, V, 2, 'b'); W = [V.array('w%d' % q, (2,), 0, 9) for q in range(2)]
    im.put(a, da); im.put(b, db, wgts=list(W))
    ck.eq(im.uv, ref(M, im, res, a[0], a[1], da) + ref(M, im, res, b[0], b[1], db), 'data put successively add up', tol=1e-4)
    ck.eq(im.bm[0], ref(M, im, res, a[0], a[1], M.np.ones((1,))) + ref(M, im, res, b[0], b[1], W[0]), 'weights put successively add up', tol=1e-4)
    ck.eq(im.bm[1], ref(M, im, res, b[0], b[1], W[1]), 'higher weights put successively add up', tol=1e-4)
    u, bm = im.put(b, db, wgts=list(W), apply=False); ck.eq(u, ref(M, im, res, b[0], b[1], db), 'not applying returns only the given data', tol=1e-4)
    ck.raises(AssertionError, lambda: im.put(b, db, wgts=[W[0], W[0], W[1]]), 'a wrong number of weight terms is refused')

def hermitian(M, V, ck):
    mf = V.choose('mf', [0, 1]); k = V.choose('k', [1, 2]); im, res = setup(M, V, mf)
    (u, v, w), d = vis(M, V, k); W = [V.array('wt%d_' % q, (k,), 0, 9) for q in range(mf + 1)]
    mode = V.choose('wgts', ['none', 'list', 'bare'])
    if mode == 'bare' and mf: return
    L = list(W)
    r = im.append_hermitian((u, v, w), d) if mode == 'none' else im.append_hermitian((u, v, w), d, wgts=L if mode == 'list' else W[0])
    ck.true(len(r) == (2 if mode == 'none' else 3), 'coordinates, data and weights, if given')
    for x, y in zip(r[0], (u, v, w)):
        ck.shape(x, (2 * k,), 'twice the coordinates')
        for q in range(k): ck.eq(x[q], y[q], 'the data themselves'); ck.eq(x[k + q], -y[q], 'opposite coordinates')
    ck.shape(r[1], (2 * k,), 'twice the data')
    for q in range(k): ck.eq(r[1][q], d[q], 'the data themselves'); ck.eq(r[1][k + q], d[q].conjugate(), 'conjugated values')
    if mode == 'none': return
    ck.true(len(r[2]) == mf + 1, 'weights of every term')
    for t in range(mf + 1):
        ck.shape(r[2][t], (2 * k,), 'twice the weights')
        for q in range(k): ck.eq(r[2][t][q], W[t][q], 'the weights themselves'); ck.eq(r[2][t][k + q], W[t][q], 'equal weights')
    ck.true(len(L) == mf + 1 and all(x is y for x, y in zip(L, W)), "the caller's weights are not modified")
    for t in range(mf + 1): ck.shape(W[t], (k,), "the caller's weights are not modified")
    im.put(*r); ck.eq(im.uv, ref(M, im, res, r[0][0], r[0][1], r[1]), 'conjugates are gridded with the data', tol=1e-4)

def realimage(M, V, ck):
    """A data plane whose opposite cells are conjugate images to the real transform without loss."""
    n = V.choose('n', [2, 4]); im = M.img.Img(size=n, res=1)
    for c in np.ndindex((n, n)):
        o = ((-c[0]) % n, (-c[1]) % n)
        if c == o: im.uv[c] = V.real('r%d%d' % c, -9, 9) + 0j
        elif c < o: z = V.cplx('z%d%d' % c, -9, 9); im.uv[c] = z; im.uv[o] = z.conjugate()
    f = M.np.fft.ifft2(im.uv); g = im.image()
    for c in np.ndindex((n, n)): ck.eq(f[c].imag, 0., 'the image of data and conjugates is real', tol=1e-5); ck.eq(g[c], f[c].real, 'the image is the whole transform', tol=1e-5)

def reading(M, V, ck):
    """Reading divides the degridded data by the degridded weights, one value per coordinate."""
    im, res = setup(M, V); k = V.choose('k', [1, 2])
    (u, v, w), d = vis(M, V, k)
    z = V.carray('z', (4, 4), 1, 2); b = V.array('b', (4, 4), 1, 2)
    for c in np.ndindex((4, 4)): im.uv[c] = z[c]; im.bm[0][c] = b[c] + 0j
    keep = im.uv.copy()
    r = im.get((u, v, w)); ck.shape(r, (k,), 'one value per coordinate'); ck.eq(im.uv, keep, 'reading leaves the image unchanged')
    one = [im.get((u[q:q+1], v[q:q+1], w[q:q+1])) for q in range(k)]
    for q in range(k): ck.eq(r[q], one[q][0], 'every coordinate is read by itself', tol=1e-4)

SCENARIOS = [Scenario(g.__name__, g, stubs=S, tol=1e-5) for g in (put, add, hermitian, realimage, reading)]
