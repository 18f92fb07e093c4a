from vlib.harness import Scenario
from checks.hp import *
from vlib import fstub
import tempfile, os, shutil
BOUNDS = 'two-, three- and four-dimensional images up to 4 pixels a side of any values, any centre, pixel size, epoch, frequency and names; sky maps of resolution 1 and 2 in both orderings with up to 2 indices'
OUTSIDE = 'the FITS file format itself (astropy), integer and narrow float types beyond the replays, free-text history lines'
EXPLANATION = 'to_fits and from_fits executed on symbolic images and header values with an in-memory contract of astropy; models replayed through real files with the installed astropy.'
S = dict(HS); S['astropy.io'] = fstub.module
class Tmp:
    def __enter__(self): self.d = tempfile.mkdtemp(prefix='aipyfits.'); return lambda n: os.path.join(self.d, n)
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
AX = {2: [('ra--sin', 'dec--sin'), ('dec--sin', 'ra--sin'), ('ra--tan', 'freq'), ('freq', 'dec--sin')], 3: [('ra--sin', 'dec--sin', 'freq'), ('freq', 'stokes', 'ra--sin')], 4: [('ra--sin', 'dec--sin', 'freq', 'stokes')]}
SH = {2: [(2, 3), (4, 4), (3, 2)], 3: [(2, 3, 4)], 4: [(2, 2, 3, 2)]}
def image(M, V, ck):
    nd = V.choose('nd', [2, 3, 4]); ax = V.choose('ax', AX[nd]); sh = V.choose('sh', SH[nd]); d = V.array('d', sh, -100, 100); keep = d.copy()
    kw = dict(ra=V.real('ra', 0, 360), dec=V.real('dec', -90, 90), d_ra=V.real('d_ra', -2, 2), d_dec=V.real('d_dec', -2, 2), epoch=V.real('epoch', 1900, 2100), freq=V.real('freq', 1e6, 1e9), d_freq=V.real('d_freq', -1e6, 1e6))
    kw.update(object=V.choose('obj', ['cyg', '3C 123', 'a']), telescope='PAPER', instrument='X4', observer='me', origin='here', obs_date='01/02/03')
    with Tmp() as T:
        fn = T('a.fits'); M.img.to_fits(fn, d, axes=ax, **kw)
        ck.eq(list(d.flat), list(keep.flat), 'the image is left alone')
        r, k = M.img.from_fits(fn)
        ck.shape(r, sh, 'shape'); ck.eq(list(np.asarray(r).flat), list(keep.flat), 'pixel values')
        ck.true(list(k['axes']) == list(ax), 'axis names in order')
        for a in ax:
            if a.startswith('ra'): ck.eq(k['ra'], kw['ra'], 'right ascension of the centre'); ck.eq(abs(k['d_ra']), abs(kw['d_ra']), 'pixel size along right ascension'); ck.le(k['d_ra'], 0, 'right ascension decreases with pixel number')
            if a.startswith('dec'): ck.eq(k['dec'], kw['dec'], 'declination of the centre'); ck.eq(k['d_dec'], kw['d_dec'], 'pixel size along declination')
            if a.startswith('freq'): ck.eq(k['freq'], kw['freq'], 'frequency'); ck.eq(k['d_freq'], kw['d_freq'], 'channel width')
        ck.eq(k['epoch'], kw['epoch'], 'epoch')
        for n in ('object', 'telescope', 'instrument', 'observer', 'origin', 'obs_date'): ck.true(k[n] == kw[n], 'the %s survives' % n)
        # and again: what was read can be written
        keys = {q: v for q, v in k.items() if q != 'axes'}
        M.img.to_fits(fn, r, axes=k['axes'], **keys); r2, k2 = M.img.from_fits(fn)
        ck.eq(list(np.asarray(r2).flat), list(keep.flat), 'pixel values after a second round trip')
        for q in ('ra', 'dec', 'd_ra', 'd_dec', 'epoch', 'freq', 'd_freq'):
            if q in k: ck.eq(k2[q], k[q], 'header values after a second round trip')
def overwritten(M, V, ck):
    """A file written twice holds the second image; files do not mix."""
    a, b = V.array('a', (2, 3)), V.array('b', (3, 2)); R = {q: V.real(q, 0, 9) for q in ('r1', 'r2', 'r3')}
    with Tmp() as T:
        M.img.to_fits(T('x'), a, ra=R['r1']); M.img.to_fits(T('y'), b, ra=R['r2']); M.img.to_fits(T('x'), b, ra=R['r3'], clobber=True)
        for n, d, q in (('x', b, 'r3'), ('y', b, 'r2')):
            r, k = M.img.from_fits(T(n)); ck.shape(r, (3, 2), 'shape'); ck.eq(list(np.asarray(r).flat), list(b.flat), 'pixels of the last write'); ck.eq(k['ra'], R[q], 'header of the last write')
def axes_refused(M, V, ck):
    d = V.array('d', (2, 3, 2))
    with Tmp() as T: ck.raises(TypeError, lambda: M.img.to_fits(T('x'), d), 'axes that do not match the image are refused')
def squeezed(M, V, ck):
    """Axes of length one are dropped."""
    d = V.array('d', (1, 3, 2))
    with Tmp() as T:
        M.img.to_fits(T('x'), d); r, k = M.img.from_fits(T('x')); ck.shape(r, (3, 2), 'shape'); ck.eq(list(np.asarray(r).flat), list(d.flat), 'pixels')
def rewrite(M, V, ck):
    """A new image under the header of another file, some values replaced."""
    a, b = V.array('a', (2, 3)), V.array('b', (2, 3)); v = {q: V.real(q, -5, 5) for q in ('ra', 'dec', 'd_ra', 'd_dec', 'e', 'nra', 'nd_dec')}
    with Tmp() as T:
        M.img.to_fits(T('x'), a, ra=v['ra'], dec=v['dec'], d_ra=v['d_ra'], d_dec=v['d_dec'], epoch=v['e'], object='one')
        M.img.from_fits_to_fits(T('x'), T('y'), b, {'ra': v['nra'], 'd_dec': v['nd_dec'], 'object': 'two'})
        r, k = M.img.from_fits(T('y')); ck.eq(list(np.asarray(r).flat), list(b.flat), 'the new pixels'); ck.eq(k['ra'], v['nra'], 'replaced value'); ck.eq(k['d_dec'], v['nd_dec'], 'replaced value'); ck.eq(k['dec'], v['dec'], 'kept value'); ck.eq(abs(k['d_ra']), abs(v['d_ra']), 'kept value'); ck.eq(k['epoch'], v['e'], 'kept value'); ck.true(k['object'] == 'two', 'replaced name')
        r, k = M.img.from_fits(T('x')); ck.eq(list(np.asarray(r).flat), list(a.flat), 'the first file is unchanged'); ck.eq(k['ra'], v['ra'], 'the first file is unchanged')
def skymap(M, V, ck):
    nside = V.choose('nside', [1, 2]); s = V.choose('s', ['RING', 'NEST']); n = 12 * nside**2; d = V.array('d', (n,), -100, 100); h = M.healpix.HealpixMap(nside=nside, scheme=s); h.set_map(d.copy(), scheme=s)
    with Tmp() as T:
        kw = {'format': 'D'} if M.symbolic else {}
        h.to_fits(T('h'), **kw); g = M.healpix.HealpixMap(fromfits=T('h'))
        ck.eq(g.nside(), nside, 'resolution'); ck.true(g.scheme() == s, 'ordering'); ck.eq(list(g.get_map()), list(d), 'contents')
        e = M.healpix.HealpixMap(nside=4, scheme='RING'); e.from_fits(T('h')); ck.eq(e.nside(), nside, 'resolution'); ck.true(e.scheme() == s, 'ordering'); ck.eq(list(e.get_map()), list(d), 'contents')
        h[np.array([0, 1])] = V.arr([V.real('x'), V.real('y')]); h.to_fits(T('h'), **kw)
        g = M.healpix.HealpixMap(fromfits=T('h')); ck.eq(list(g.get_map()), list(h.get_map()), 'written again')
def wmap(M, V, ck):
    ni = V.choose('ni', [0, 1, 2]); s = V.choose('s', ['RING', 'NEST']); m = M.map.Map(nside=1, scheme=s, nindices=ni)
    m.add(np.array([0, 5, 5]), V.array('w', (3,), .1, 5), V.array('f', (3,), -9, 9), [V.array('i%d' % q, (3,), -2, 2) for q in range(ni)])
    with Tmp() as T:
        m.to_fits(T('m'), clobber=True, **({'format': 'D'} if M.symbolic else {})); g = M.map.Map(fromfits=T('m'))
        ck.eq(len(g.ind), ni, 'as many indices'); ck.true(g.scheme() == s, 'ordering'); ck.eq(g.nside(), 1, 'resolution')
        for a, b in [(g.map, m.map), (g.wgt, m.wgt)] + list(zip(g.ind, m.ind)): ck.eq(list(a.get_map()), list(b.get_map()), 'contents'); ck.true(a.scheme() == s, 'ordering of every layer')
        h = M.healpix.HealpixMap(nside=1, scheme=s); h.set_map(V.array('h', (12,)), scheme=s); h.to_fits(T('h'), **({'format': 'D'} if M.symbolic else {}))
        g = M.map.Map(fromfits=T('h')); ck.eq(list(g.wgt.get_map()), [1] * 12, 'a plain sky map reads with weight one'); ck.eq(list(g[np.arange(12)]), list(h.get_map()), 'and its values')
SCENARIOS = [Scenario(g.__name__, g, stubs=S) for g in (image, overwritten, axes_refused, squeezed, rewrite, skymap, wmap)]
