"""Contract of astropy.io.fits on the symbolic side: headers are ordered, case-insensitive
dictionaries; files live in memory; image scaling keywords of written data are dropped;
NAXISn follow the data."""
import types
import numpy as np
from . import snp
from .sym import EngineLimit
class Header:
    def __init__(self, d=None): self.d = dict(d.d if isinstance(d, Header) else d or {}); self.hist = list(getattr(d, 'hist', []))
    def _k(self, k): return k.strip().upper()
    def __setitem__(self, k, v):
        if isinstance(v, tuple): v = v[0]
        self.d[self._k(k)] = v
    def __getitem__(self, k):
        if isinstance(k, int): return list(self.d.values())[k]
        return self.d[self._k(k)]
    def __contains__(self, k): return self._k(k) in self.d
    def get(self, k, default=None): return self.d.get(self._k(k), default)
    def items(self): return list(self.d.items())
    def keys(self): return list(self.d)
    def update(self, *a, **k):
        for o in a:
            for q, v in dict(o.d if isinstance(o, Header) else o).items(): self[q] = v
        for q, v in k.items(): self[q] = v
    def add_history(self, s): self.hist.append(s)
    def add_comment(self, s): pass
    def copy(self): return Header(self)
    def __delitem__(self, k): del self.d[self._k(k)]
class ImageHDU:
    def __init__(self, data=None, header=None):
        self.data = data; self.header = Header(header)
        if data is not None: _shape(self.header, data)
def _shape(h, data):
    for k in [k for k in h.d if k.startswith('NAXIS')]: del h.d[k]
    h['NAXIS'] = data.ndim
    for i in range(data.ndim): h['NAXIS%d' % (i+1)] = data.shape[-(i+1)]
class Column:
    def __init__(self, name=None, format=None, array=None, **k): self.name, self.format, self.array = name, format, array
class ColDefs(list): pass
class Rec:
    def __init__(self, cols): self.cols = cols
    def field(self, n):
        if isinstance(n, str): return [c.array for c in self.cols if c.name.lower() == n.lower()][0]
        return self.cols[n].array
    __getitem__ = field
class Table:
    def __init__(self, cols): self.data = Rec(list(cols)); self.header = Header(); self.columns = list(cols)
    @classmethod
    def from_columns(cls, cols, header=None, **k):
        t = cls(cols); t.header.update(header or {}); return t
class HDUList(list):
    fs = None
    def writeto(self, fn, overwrite=False, **k):
        if fn in self.fs and not overwrite: raise OSError('file exists')
        self.fs[fn] = [_freeze(h) for h in self]
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
def _freeze(h):
    if isinstance(h, Table):
        t = Table([Column(c.name, c.format, np.array(c.array, copy=True).view(type(c.array)) if isinstance(c.array, np.ndarray) else c.array) for c in h.data.cols]); t.header = Header(h.header); return t
    d = None if h.data is None else h.data.copy()
    n = ImageHDU(d, h.header)
    for k in ('BSCALE', 'BZERO'):
        if d is not None: n.header.d.pop(k, None)
    return n
def module():
    fs = {}
    f = types.ModuleType('astropy.io.fits')
    L = type('HDUList', (HDUList,), {'fs': fs})
    def opn(fn, *a, **k):
        if fn not in fs: raise FileNotFoundError(fn)
        return L(_freeze(h) for h in fs[fn])
    def writeto(fn, data, header=None, overwrite=False, **k): L([ImageHDU(data, header)]).writeto(fn, overwrite=overwrite)
    def getdata(fn, ext=0, **k): return opn(fn)[ext].data
    def getheader(fn, ext=0, **k): return opn(fn)[ext].header
    f.open, f.writeto, f.PrimaryHDU, f.ImageHDU, f.Column, f.ColDefs, f.BinTableHDU, f.HDUList, f.Header, f.getdata, f.getheader = opn, writeto, ImageHDU, ImageHDU, Column, ColDefs, Table, L, Header, getdata, getheader
    io = types.ModuleType('astropy.io'); io.fits = f
    return io
module._fresh = True
