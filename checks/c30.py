from vlib.harness import Scenario
from checks.common import *
BOUNDS = 'images of up to 4x4 pixels with any values and masks, any centre from -9 to 9; grids up to 6x6 (8x8 for l,m) cells of any resolution'
OUTSIDE = 'larger grids (the formulas act on each index alike); single-precision rounding'
EXPLANATION = 'recenter, get_LM, get_uv, get_top, get_eq and image executed on symbolic pixel values, resolutions and centres.'

def shift(M, V, ck):
    sh = V.choose('shape', [(2, 3), (3, 2), (1, 4), (4, 4), (1, 1)]); a = V.array('a', sh)
    c = (V.cint('c0', -9, 9), V.choose('c1', [0, 1, 2, -1, 7]))
    keep = a.copy()
    b = M.img.recenter(a, c)
    ck.shape(b, sh, 'the shape stays'); ck.eq(a, keep, 'the argument is not modified')
    for i in range(sh[0]):
        for j in range(sh[1]): ck.eq(b[i, j], a[(i + c[0]) % sh[0], (j + c[1]) % sh[1]], 'a periodic shift that brings the given position to the origin')
    ck.eq(M.img.recenter(b, (-c[0], -c[1])), a, 'the opposite shift undoes it')
    d = M.img.recenter(a, (c[0] + .4, c[1] + sh[1])); ck.eq(d, b, 'whole periods and fractions make no difference')
def masked(M, V, ck):
    sh = V.choose('shape', [(2, 3), (3, 1)]); c = (V.cint('c0', -2, 2), V.choose('c1', [0, 1, -4]))
    a = V.array('a', sh); m = V.mask('m', sh)
    A = M.np.ma.array(a, mask=m); b = M.img.recenter(A, c); d = M.img.recenter(b, (-c[0], -c[1]))
    bm, dm = np.ma.getmaskarray(b), np.ma.getmaskarray(d)
    for i in range(sh[0]):
        for j in range(sh[1]):
            i0, j0 = (i + c[0]) % sh[0], (j + c[1]) % sh[1]
            ck.true(bool(bm[i, j]) == bool(m[i0, j0]), 'the mask moves with the data')
            if not m[i0, j0]: ck.eq(b.data[i, j], a[i0, j0], 'masked images shift like plain ones')
            ck.true(bool(dm[i, j]) == bool(m[i, j]), 'the opposite shift restores the mask')
            if not m[i, j]: ck.eq(d.data[i, j], a[i, j], 'the opposite shift restores the data')

def mkimg(M, V, n, lo, hi, mf=0):
    res = V.real('res', lo, hi)
    return M.img.Img(size=res * n, res=res, mf_order=mf), res
def signed(k, n):
    """Index to signed frequency: residues of k modulo n nearest zero."""
    return [q for q in (k, k - n) if abs(q) * 2 <= n + 1]
def coords_uv(M, V, ck):
    n = V.choose('n', [1, 2, 3, 4, 5, 6]); im, res = mkimg(M, V, n, .1, 10)
    ck.true(im.shape == (n, n) and im.uv.shape == (n, n) and len(im.bm) == 1 and im.bm[0].shape == (n, n), 'grid of size over resolution cells')
    u, v = im.get_uv(); ck.shape(u, (n, n), 'a coordinate per cell'); ck.shape(v, (n, n), 'a coordinate per cell')
    for i in range(n):
        for j in range(n):
            for got, k in ((u[i, j], i), (v[i, j], j)):
                e = [q * res for q in signed(k, n)]
                c = M.np.array(got == e[0]) if V.symbolic else abs(got - e[0]) < 1e-9 * (1 + abs(e[0]))
                if len(e) > 1: c = c | (M.np.array(got == e[1]) if V.symbolic else abs(got - e[1]) < 1e-9 * (1 + abs(e[1])))
                ck.true(c[()] if isinstance(c, np.ndarray) else c, 'grid coordinates in the order of the Fourier transform')
def coords_lm(M, V, ck):
    n = V.choose('n', [2, 4, 8] + ([] if V.symbolic else [3, 5])); im, res = mkimg(M, V, n, .3, 3)     # thirds are not exact in single precision
    c = V.choose('center', [(0, 0), (1, 2)])
    for k in range(n):
        for l in range(n):
            d = sum((min(q, n - q))**2 for q in (k, l)) - (n * res)**2
            if not V.symbolic: V.assume(abs(d) > 1e-3)
    L, Mm = im.get_LM(c); lm, mm = np.ma.getmaskarray(L), np.ma.getmaskarray(Mm)
    ck.shape(L, (n, n), 'a coordinate per pixel')
    for i in range(n):
        for j in range(n):
            k0, k1 = (i + c[0]) % n, (j + c[1]) % n
            m0, m1 = min(k0, n - k0), min(k1, n - k1); r2 = m0*m0 + m1*m1
            ck.true(bool(lm[i, j]) == bool(mm[i, j]), 'both coordinates are masked alike')
            if lm[i, j]: ck.true(r2 >= (n * res)**2, 'only pixels beyond the unit circle are masked'); continue
            ck.true(r2 < (n * res)**2, 'pixels beyond the unit circle are masked')
            # phase of a visibility at one cell step in u or v
            l, m = L.data[i, j] * n * res, Mm.data[i, j] * n * res
            ck.eq(l * l, m1 * m1, 'size of l', tol=1e-4); ck.eq(m * m, m0 * m0, 'size of m', tol=1e-4)
            if 2 * m1 != n: ck.eq(l, -k1 if k1 == m1 else m1, 'l increases towards decreasing second index', tol=1e-4)
            if 2 * m0 != n: ck.eq(m, k0 if k0 == m0 else -m0, 'm increases with the first index', tol=1e-4)

def imaging(M, V, ck):
    """A visibility in one cell makes the fringe of its uv coordinates in the l,m coordinates of the image."""
    n = V.choose('n', [2, 4]); im, res = mkimg(M, V, n, 2, 3)
    i0, i1 = V.choose('i0', range(n)), V.choose('i1', range(n)); z = V.cplx('z', -10, 10)
    im.uv[i0, i1] += z
    c = V.choose('center', [(0, 0), (1, 0), (n // 2, n // 2)])
    img = im.image(c); L, Mm = im.get_LM(c); ck.shape(img, (n, n), 'an image of the grid')
    e = M.np.array([0.]); a = im.get_indices(V.arr([1.]) * i1 * res, V.arr([-1.]) * i0 * res)
    ck.eq([a[0][0], a[1][0]], [i0, i1], 'cell of the uv coordinates', tol=1e-5)
    for i in range(n):
        for j in range(n):
            k0, k1 = (i + c[0]) % n, (j + c[1]) % n
            w = {0: 1, 1: 1j, 2: -1, 3: -1j}[(i0*k0 + i1*k1) * (4 // n) % 4]
            ck.eq(img[i, j], (z * w).real / n**2, 'real part of the inverse Fourier transform, recentred', tol=1e-4)
            if not V.symbolic:
                u, v = i1 * res, -i0 * res
                ck.eq(img[i, j], (z * np.exp(-2j*np.pi*(u*L.data[i, j] + v*Mm.data[i, j]))).real / n**2, 'fringe of the uv coordinates', tol=1e-3)
    im.bm[0][i0, i1] += z; b = im.bm_image(c); ck.true(len(b) == 1, 'one beam image per term'); ck.eq(b[0], img, 'beam images transform alike'); ck.eq(im.bm_image(c, term=0), img, 'a single beam image')

def sky(M, V, ck):
    """Topocentric and equatorial directions of the pixels."""
    n = 3; im, res = mkimg(M, V, n, .6, 3); c = V.choose('center', [(0, 0), (1, 1)])
    x, y, z = im.get_top(c); L, Mm = im.get_LM(c)
    ra, dec = V.angle('ra', 0, 6), V.angle('dec', -1.5, 1.5)
    e = im.get_eq(ra, dec, c); ck.shape(e, (3, n, n), 'a vector per pixel')
    T = M.coord.top2eq_m(-ra, dec)
    em, lm = np.ma.getmaskarray(e), np.ma.getmaskarray(L)
    for i in range(n):
        for j in range(n):
            ck.true(all(bool(em[q, i, j]) == bool(lm[i, j]) for q in range(3)), 'pixels beyond the unit circle stay masked')
            if lm[i, j]: continue
            l, m = L.data[i, j], Mm.data[i, j]
            ck.eq([x.data[i, j], y.data[i, j]], [l, m], 'topocentric coordinates are l, m'); ck.eq(z.data[i, j]**2 + l*l + m*m, 1, 'directions are unit vectors', tol=1e-4); ck.ge(z.data[i, j], 0, 'directions are above the horizon')
            t = [l, m, z.data[i, j]]; ck.eq([e.data[q, i, j] for q in range(3)], mv(T, t), 'equatorial directions about the phase centre', tol=1e-4)
    k = (-c[0]) % n, (-c[1]) % n
    ck.eq([e.data[q, k[0], k[1]] for q in range(3)], [M.np.cos(dec)*M.np.cos(ra), M.np.cos(dec)*M.np.sin(ra), M.np.sin(dec)], 'the centre pixel is the phase centre', tol=1e-4)

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS, tol=1e-5, max_paths=3000) for g in (shift, masked, coords_uv, coords_lm, imaging, sky)]
