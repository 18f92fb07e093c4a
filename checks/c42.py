from vlib.harness import Scenario
from checks.common import *
import sys, types
BOUNDS = 'any channel width and start frequency, 1 to 5 channels; calibration modules with and without their own catalogue function'
OUTSIDE = 'the contents of users\' calibration modules'
EXPLANATION = 'cal.get_freqs, get_aa and get_catalog executed on symbolic channel width and start frequency with a recording calibration module.'

def module(**kw):
    m = types.ModuleType('vcal_probe'); vars(m).update(kw); sys.modules['vcal_probe'] = m
    return m

def array(M, V, ck):
    seen = []
    module(get_aa=lambda freqs: seen.append(freqs) or 'the array')
    sdf, sf = V.real('sdf', .0001, .01), V.real('sfreq', .05, .3); n = V.choose('n', [1, 2, 5])
    f = M.cal.get_freqs(sdf, sf, n); ck.shape(f, (n,), 'one frequency per channel')
    for k in range(n): ck.eq(f[k], sf + k * sdf, 'channel frequency')
    r = M.cal.get_aa('vcal_probe', sdf, sf, n)
    ck.true(r == 'the array' and len(seen) == 1, "the module's array is returned")
    ck.shape(seen[0], (n,), 'one frequency per channel is passed on')
    for k in range(n): ck.eq(seen[0][k], sf + k * sdf, 'frequency passed on')
    g = V.array('g', (2,), .1, .2); M.cal.get_aa('vcal_probe', g); ck.eq(seen[1], g, 'given frequencies are passed on as they are')

def catalog(M, V, ck):
    seen = []; cut = (V.real('cut', 0, 99), V.real('fq', .1, .2))
    module(get_catalog=lambda srcs=None, cutoff=None, catalogs=None: seen.append((srcs, cutoff, catalogs)) or 'the catalogue')
    ck.true(M.cal.get_catalog('vcal_probe', srcs=['x'], cutoff=cut, catalogs=['q']) == 'the catalogue', "the module's own catalogue")
    ck.true(seen[0][0] == ['x'] and seen[0][2] == ['q'], 'the request is passed on'); ck.eq(list(seen[0][1]), list(cut), 'the cutoff is passed on')
    module()
    src = M.src; old = src.get_catalog; calls = []
    src.get_catalog = lambda srcs=None, cutoff=None, catalogs=None: calls.append((srcs, cutoff, catalogs)) or 'standard'
    try:
        for k in ('vcal_probe', 'vcal_no_such_module', None):
            del calls[:]
            ck.true(M.cal.get_catalog(k, srcs=['x'], cutoff=cut, catalogs=['q']) == 'standard', 'without one, the standard catalogue')
            ck.true(calls and calls[0][0] == ['x'] and calls[0][2] == ['q'], 'the request is passed on to the standard catalogue'); ck.eq(list(calls[0][1]), list(cut), 'the cutoff is passed on to the standard catalogue')
    finally: src.get_catalog = old

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (array, catalog)]
