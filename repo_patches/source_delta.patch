From d06a479fc3bfcf4bdd627c59e00b6678bf40a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 01/53] fix: coordinate conversions of masked arrays that carry
 no mask

The fallback named np.core.ma.MAError, which does not exist.
---
 aipy/coord.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/aipy/coord.py b/aipy/coord.py
index d3c3fda..b9a6981 100644
--- a/aipy/coord.py
+++ b/aipy/coord.py
@@ -63,11 +63,9 @@ def xyz2thphi(xyz):
     phi = np.arctan2(y, x)
     th = np.arctan2(np.sqrt(x**2+y**2),z)
     if np.ma.isMA(x):
-        try:
-            return np.ma.array([th.filled(0),phi.filled(0)],
-                mask=[x.mask,x.mask], dtype=np.double)
-        except(np.core.ma.MAError):
-            return np.ma.array([th,phi], dtype=np.double)
+        mask = np.ma.getmaskarray(x)
+        return np.ma.array([th.filled(0),phi.filled(0)],
+            mask=[mask,mask], dtype=np.double)
     return np.array([th,phi], dtype=np.double)
 
 def thphi2xyz(th_phi):
@@ -78,11 +76,9 @@ def thphi2xyz(th_phi):
     r = np.sin(th)
     x,y = r*np.cos(phi), r*np.sin(phi)
     if np.ma.isMA(th):
-        try:
-            return np.ma.array([x.filled(),y.filled(),z.filled()],
-                mask=[th.mask, th.mask, th.mask], dtype=np.double)
-        except(np.core.ma.MAError):
-            return np.ma.array([x,y,z], dtype=np.double)
+        mask = np.ma.getmaskarray(th)
+        return np.ma.array([x.filled(),y.filled(),z.filled()],
+            mask=[mask, mask, mask], dtype=np.double)
     return np.array([x,y,z], dtype=np.double)
 
 def eq2radec(xyz):
-- 
2.43.0


From fc606ac8085c47b71e316fc0abe00d52f2849c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 02/53] fix: setting an array's ephem time also refreshes what
 simulation depends on

---
 aipy/amp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 9e19efc..5828431 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -288,9 +288,10 @@ class AntennaArray(phs.AntennaArray):
     def get_active_pol(self):
         if self.active_pol is None: raise RuntimeError('No active polarization set (use AntennaArray.set_active_pol)')
         return self.active_pol
-    def set_jultime(self, t=None):
-        """Set current time as a Julian date."""
-        phs.AntennaArray.set_jultime(self, t=t)
+    def set_ephemtime(self, t=None):
+        """Set current time as derived from the ephem package (set_jultime
+        ends up here, too).  Invalidates results cached for simulation."""
+        phs.AntennaArray.set_ephemtime(self, t=t)
         self.eq2top_m = coord.eq2top_m(-self.sidereal_time(), self.lat)
         self._cache = None
     def passband(self, i, j):
-- 
2.43.0


From 66e4753d93a422de16dce0fc940812666e882e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 03/53] fix: rebuilding flattened parameters keeps sequences of
 length one and zero

---
 aipy/fit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index f06e8ca..ea6bc39 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -32,7 +32,7 @@ def flatten_prms(prms, prm_list=None):
                 key_list[k] = (len(prm_list), len(prms[k]))
                 prm_list += list(prms[k])
             except(TypeError):
-                key_list[k] = (len(prm_list), 1)
+                key_list[k] = (len(prm_list), None)
                 prm_list.append(prms[k])
     return prm_list, key_list
 
@@ -45,8 +45,9 @@ def reconstruct_prms(prm_list, key_list):
         if type(v) == dict: prms[k] = reconstruct_prms(prm_list, v)
         else:
             i, L = v
-            if L > 1: prms[k] = prm_list[i:i+L]
-            else: prms[k] = prm_list[i]
+            # L is None for a scalar, otherwise the length of a sequence
+            if L is None: prms[k] = prm_list[i]
+            else: prms[k] = prm_list[i:i+L]
     return prms
 
 def print_params(prms, indent='', grad=None):
-- 
2.43.0


From 12061473e68611521a0dda2c3f52f08346fd133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 04/53] fix: the reference frequency of a source can be set as
 well as read

---
 aipy/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/fit.py b/aipy/fit.py
index ea6bc39..02a3d65 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -132,6 +132,8 @@ class RadioFixedBody(amp.RadioFixedBody):
         except(KeyError): pass
         try: self.ionref[1] = prms['ddec']
         except(KeyError): pass
+        try: self.mfreq = prms['mfreq']
+        except(KeyError): pass
 
 #  ____           _ _      ____                  _       _
 # |  _ \ __ _  __| (_) ___/ ___| _ __   ___  ___(_) __ _| |
-- 
2.43.0


From 7b7c24ba1ea141435f7adb4afcdd9cdc25326b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 05/53] fix: polynomial beam parameters may be given as a list
 and are not reshaped in place

---
 aipy/fit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 02a3d65..93e0b19 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -258,9 +258,7 @@ class BeamPolynomial(amp.BeamPolynomial):
         """Set all parameters from a dictionary."""
         changed = False
         try:
-            poly_azfreq = prms['bm_poly']
-            poly_azfreq.shape = self.poly.shape
-            self.poly = poly_azfreq
+            self.poly = np.reshape(prms['bm_poly'], self.poly.shape)
             changed = True
         except(KeyError): pass
         if changed: self.update()
-- 
2.43.0


From 98319a656180563dc8c4a92ade6b4e089f3fa0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 06/53] fix: maps from spherical harmonics are not smoothed by
 a pixel window

---
 aipy/healpix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 9bb8c50..f1f821b 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -281,7 +281,7 @@ class HealpixMap(HealpixBase):
     def from_alm(self, alm):
         """Set data to the map generated by the spherical harmonic
         coefficients contained in alm."""
-        self.set_map(alm.to_map(self.nside(), self.scheme()))
+        self.set_map(alm.to_map(self.nside()))
     def to_alm(self, lmax, mmax, iter=1):
         """Return an Alm object containing the spherical harmonic components
         of a map (in RING mode) up to the specified lmax,mmax.  Greater
-- 
2.43.0


From a6fe8702ef906fdf587293a35f752348bf810dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 07/53] fix: spherical-harmonic beam terms are read under the
 numbers they are set with

---
 aipy/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 93e0b19..02016f0 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -271,7 +271,7 @@ class BeamAlm(amp.BeamAlm):
     def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {}
-        for i, a in enumerate(self.alm):
+        for i, a in enumerate(self.alm[::-1]): # same numbering as set_params
             k = 'alm%d' % i
             data = a.get_data()
             aprms[k] = np.array([data.real, data.imag]).transpose().flatten()
-- 
2.43.0


From 12142ff0db05a7d7e82fb035cedf482e65dc2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 08/53] fix: antennas do not share phase coefficients with each
 other or with the caller

---
 aipy/fit.py | 4 ++--
 aipy/phs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 02016f0..9633847 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -308,7 +308,7 @@ class Antenna(amp.Antenna):
         """Return all fitable parameters in a dictionary."""
         x,y,z = self.pos
         aprms = {'x':x, 'y':y, 'z':z, 'dly':self._phsoff[-2],
-            'off':self._phsoff[-1], 'phsoff':self._phsoff}
+            'off':self._phsoff[-1], 'phsoff':list(self._phsoff)}
         aprms['bp_r'] = list(self.bp_r)
         aprms['bp_i'] = list(self.bp_i)
         aprms['amp'] = self.amp
@@ -333,7 +333,7 @@ class Antenna(amp.Antenna):
         except(KeyError): pass
         try: self._phsoff[-1], changed = prms['off'], True
         except(KeyError): pass
-        try: self._phsoff, changed = prms['phsoff'], True
+        try: self._phsoff, changed = list(prms['phsoff']), True
         except(KeyError): pass
         try: self.bp_r, changed = prms['bp_r'], True
         except(KeyError): pass
diff --git a/aipy/phs.py b/aipy/phs.py
index 5d72478..0c4935d 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -4,7 +4,7 @@ phasing information.
 """
 from __future__ import print_function, division, absolute_import
 
-import ephem, math, numpy as np
+import copy, ephem, math, numpy as np
 from . import coord
 from . import const
 from .miriad import ij2bl, bl2ij
@@ -195,7 +195,7 @@ class Antenna:
                  with freq is often called 'delay'."""
         self.pos = np.array((x,y,z), np.float64) # must be float64 for mir
         self.beam = beam
-        self._phsoff = phsoff
+        self._phsoff = copy.deepcopy(phsoff) # not shared with other antennas
         self._update_phsoff()
     def select_chans(self, active_chans=None):
         """Select only the specified channels for use in future calculations."""
-- 
2.43.0


From 8d8763cbdd44471d3a9ef02972d125f621b3ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 09/53] fix: results cached for simulation do not outlive the
 parameters and channels they were made for

---
 aipy/amp.py | 5 +++++
 aipy/fit.py | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 5828431..92fe251 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -282,6 +282,11 @@ class AntennaArray(phs.AntennaArray):
     def __init__(self, *args, **kwargs):
         phs.AntennaArray.__init__(self, *args, **kwargs)
         self.active_pol = None
+        self._cache = None
+    def update(self):
+        """Update dependent state.  Invalidates results cached for simulation."""
+        phs.AntennaArray.update(self)
+        self._cache = None
     def set_active_pol(self, pol):
         assert(pol in ('xx','yy','xy','yx')) # the only pols supported natively, for now
         self.active_pol = pol
diff --git a/aipy/fit.py b/aipy/fit.py
index 9633847..6e974fc 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -321,8 +321,7 @@ class Antenna(amp.Antenna):
         return prms
     def set_params(self, prms):
         """Set all parameters from a dictionary."""
-        changed = False
-        self.beam.set_params(prms)
+        changed = bool(self.beam.set_params(prms))
         try: self.pos[0], changed = prms['x'], True
         except(KeyError): pass
         try: self.pos[1], changed = prms['y'], True
-- 
2.43.0


From f7a3ba1613409a5a740030e7674ea355c279424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 10/53] fix: the imaginary passband of a feed is set under the
 name it is read under

---
 aipy/pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/pol.py b/aipy/pol.py
index 01d621a..b4cf22b 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -123,7 +123,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-            try: self.bp_i[p], changed = prms['bp_i'+p], True
+            try: self.bp_i[p], changed = prms['bp_i_'+p], True
             except(KeyError): pass
             try: self.amp[p], changed = prms['amp_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 432c42bac9018b2369ab35240ed52a99c37c7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 11/53] fix: polarized antennas do not share feed parameters
 with each other or with the caller

---
 aipy/amp.py | 8 +++++---
 aipy/pol.py | 7 +++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 92fe251..0ab01e3 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -5,6 +5,7 @@ Mostly, this means adding gain/amplitude information vs. frequency.
 
 from __future__ import print_function, division, absolute_import
 
+import copy
 import numpy as np
 import ephem
 from . import phs
@@ -234,9 +235,10 @@ class Antenna(phs.Antenna):
         pointing = antenna pointing (az,alt).  Default is zenith."""
         phs.Antenna.__init__(self, x,y,z, beam=beam, phsoff=phsoff)
         self.set_pointing(*pointing)
-        self.bp_r = bp_r
-        self.bp_i = bp_i
-        self.amp = amp
+        # not shared with other antennas
+        self.bp_r = copy.deepcopy(bp_r)
+        self.bp_i = copy.deepcopy(bp_i)
+        self.amp = copy.deepcopy(amp)
         self._update_gain()
     def _update_gain(self):
         bp = np.polyval(self.bp_r, self.beam.afreqs) + \
diff --git a/aipy/pol.py b/aipy/pol.py
index b4cf22b..b485b0e 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -93,7 +93,7 @@ class Antenna(fit.Antenna):
             aprms.update({
                 'dly_'+p:self._phsoff[p][-2],
                 'off_'+p:self._phsoff[p][-1],
-                'phsoff_'+p:self._phsoff[p]})
+                'phsoff_'+p:list(self._phsoff[p])})
             aprms['bp_r_'+p] = list(self.bp_r[p])
             aprms['bp_i_'+p] = list(self.bp_i[p])
             aprms['amp_'+p] = self.amp[p]
@@ -106,8 +106,7 @@ class Antenna(fit.Antenna):
         return prms
     def set_params(self, prms):
         """Set all parameters from a dictionary."""
-        changed = False
-        self.beam.set_params(prms)
+        changed = bool(self.beam.set_params(prms))
         try: self.pos[0], changed = prms['x'], True
         except(KeyError): pass
         try: self.pos[1], changed = prms['y'], True
@@ -119,7 +118,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self._phsoff[p][-1], changed = prms['off_'+p], True
             except(KeyError): pass
-            try: self._phsoff[p], changed = prms['phsoff_'+p], True
+            try: self._phsoff[p], changed = list(prms['phsoff_'+p]), True
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 25a96e09ca7e758350ac35bc54255ad0106ecb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 12/53] fix: polynomial beams can select all channels like any
 other beam

---
 aipy/amp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 0ab01e3..d549c0b 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -151,7 +151,7 @@ class BeamPolynomial(phs.Beam):
         phs.Beam.__init__(self, freqs)
         self.poly = poly_azfreq
         self._update_sigma()
-    def select_chans(self, active_chans):
+    def select_chans(self, active_chans=None):
         """Select only enumerated channels to use for future calculations."""
         phs.Beam.select_chans(self, active_chans)
         self.update()
-- 
2.43.0


From 06e58a9abe4ed63b601463e1575a0c438c3453e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 13/53] fix: sources are simulated for a single frequency
 channel too

---
 aipy/phs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 0c4935d..618effc 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -351,7 +351,9 @@ class AntennaArray(ArrayLocation):
             if srcshape is None:
                 try: srcshape = src.srcshape
                 except(AttributeError): pass
-            if not srcshape is None: phs *= self.resolve_src(u, v, srcshape=srcshape)
+            if not srcshape is None:
+                amp = self.resolve_src(u, v, srcshape=srcshape)
+                phs *= np.reshape(amp, phs.shape)
         return phs.squeeze()
     def resolve_src(self, u, v, srcshape=(0,0,0)):
         """Adjust amplitudes to reflect resolution effects for a uniform
-- 
2.43.0


From cb46d414a576f5f0c56e8657879de4f5c4356ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 14/53] fix: asking a catalog for its sources without naming
 any returns all of them

---
 aipy/phs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 618effc..d4f1d8f 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -137,9 +137,8 @@ class SrcCatalog(dict):
     def get_srcs(self, *srcs):
         """Return list of all src objects in catalog."""
         if len(srcs) == 0: srcs = self.keys()
-        elif len(srcs) == 1 and type(srcs[0]) != str:
-            return [self[s] for s in srcs[0]]
-        else: return [self[s] for s in srcs]
+        elif len(srcs) == 1 and type(srcs[0]) != str: srcs = srcs[0]
+        return [self[s] for s in srcs]
     def compute(self, observer):
         """Call compute method of all objects in catalog."""
         for s in self: self[s].compute(observer)
-- 
2.43.0


From 64233b0720ba19605d2c0b9042b1fcdf341e8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 15/53] fix: calibration modules can be loaded under Python 3

---
 aipy/cal.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aipy/cal.py b/aipy/cal.py
index b763540..4be2974 100644
--- a/aipy/cal.py
+++ b/aipy/cal.py
@@ -26,8 +26,9 @@ def get_aa(*args):
         cal_key,sdf,sfreq,nchan = args
         freqs = get_freqs(sdf, sfreq, nchan)
     sys.path.append(os.getcwd())
-    exec('from %s import get_aa as _get_aa' % cal_key)
-    return _get_aa(freqs)
+    ns = {}
+    exec('from %s import get_aa as _get_aa' % cal_key, ns)
+    return ns['_get_aa'](freqs)
 
 def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     '''Return the source catalog specified by cal_key, which should be the
@@ -38,6 +39,11 @@ def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     specified srcs, cutoff.  If no such function is found, src.get_catalog()
     is called instead.'''
     sys.path.append(os.getcwd())
-    try: exec('from %s import get_catalog as _get_catalog' % cal_key)
-    except(ImportError): _get_catalog = src.get_catalog
+    _get_catalog = src.get_catalog
+    if not cal_key is None:
+        ns = {}
+        try:
+            exec('from %s import get_catalog as _get_catalog' % cal_key, ns)
+            _get_catalog = ns['_get_catalog']
+        except(ImportError): pass
     return _get_catalog(srcs=srcs, cutoff=cutoff, catalogs=catalogs)
-- 
2.43.0


From d1d50005f6053ebab838d8e7508f04dbec5c14c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 16/53] fix: polarizations of antenna strings follow the
 antennas they were given for

---
 aipy/scripting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index 2143787..e9b02c3 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -97,6 +97,8 @@ def parse_ants(ant_str, nants):
                     elif not i.isdigit() and not j.isdigit():
                         pol = [ai[1]+aj[1]]
                     if not pol is None:
+                        # polarizations go with the ordered antenna pair
+                        if int(ai[0]) > int(aj[0]): pol = [p[::-1] for p in pol]
                         bl = miriad.ij2bl(abs(int(ai[0])),abs(int(aj[0])))
                         for p in pol:
                             rv.append((bl,include,p))
-- 
2.43.0


From 0415ec758fb34b57490a41d5457508e2602b0e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 17/53] fix: weights of a single datum can be gridded, and
 appending conjugates leaves the caller's weights alone

---
 aipy/img.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 38f2ca0..be118df 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -128,7 +128,7 @@ class Img:
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         if apply: uv,bm = self.uv,self.bm
         else:
@@ -184,9 +184,9 @@ class Img:
         w = np.concatenate([w, -w], axis=0)
         data = np.concatenate([data, np.conj(data)], axis=0)
         if wgts is None: return np.array((u,v,w)), data
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
-        for i,wgt in enumerate(wgts): wgts[i] = np.concatenate([wgt,wgt],axis=0)
+        wgts = [np.concatenate([wgt,wgt],axis=0) for wgt in wgts]
         return (u,v,w), data, wgts
     def _gen_img(self, data, center=(0,0)):
         """Return the inverse FFT of the provided data, with the 0,0 point
@@ -240,7 +240,7 @@ class ImgW(Img):
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         # Sort uvw in order of w
         order = np.argsort(w)
-- 
2.43.0


From 9f68f2ef6fa3947f26edba68de9adb0c15a648d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 18/53] fix: a single coordinate can be read back from a
 w-projected image

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index be118df..bc80ca2 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -273,7 +273,7 @@ class ImgW(Img):
     def get(self, uvw):
         u,v,w = uvw
         order = np.argsort(w.flat)
-        u_,v_,w_ = u.take(order).squeeze(), v.take(order).squeeze(), w.take(order).squeeze()
+        u_,v_,w_ = u.take(order), v.take(order), w.take(order)
         sqrt_w = np.sqrt(np.abs(w_)) * np.sign(w_)
         i, d_ = 0, []
         while True:
-- 
2.43.0


From 5973c162ebb5730ba9975c7314d70cddc8517d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 19/53] fix: initialising a sky map from another keeps its own
 ordering and the other map as it was

---
 aipy/healpix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index f1f821b..b9610c6 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -268,6 +268,7 @@ class HealpixMap(HealpixBase):
             px = np.arange(self.npix())
             th,phi = self.px2crd(px, ncrd=2)
             self[px] = hpm[th,phi].astype(self.get_dtype())
+            hpm.set_interpol(interpol)
         elif hpm.nside() > self.nside():
             px = np.arange(hpm.npix())
             th,phi = hpm.px2crd(px, ncrd=2)
@@ -276,8 +277,10 @@ class HealpixMap(HealpixBase):
             if hpm.scheme() == self.scheme():
                 self.map = hpm.map.astype(self.get_dtype())
             else:
+                scheme = self.scheme()
                 i = self.nest_ring_conv(np.arange(self.npix()), hpm.scheme())
                 self.map = hpm.map[i].astype(self.get_dtype())
+                self.set_nside_scheme(scheme=scheme)
     def from_alm(self, alm):
         """Set data to the map generated by the spherical harmonic
         coefficients contained in alm."""
-- 
2.43.0


From e7d9a017ef1c626b71d1b3295b890ce4cbeff26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 20/53] fix: the sphere packing has N points for every N

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 7cd8cfb..3e329f6 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -24,7 +24,7 @@ def pack_sphere(N):
     z = np.arange(-1+dz/2,1, dz)
     r = np.sqrt(1-z**2)
     dL = np.pi * (3 - np.sqrt(5))
-    long = np.arange(0, dL * N, dL)
+    long = dL * np.arange(N)
     return np.array([r*np.cos(long), r*np.sin(long), z])
 
 def _bit_reverse(N, nbits=None):
-- 
2.43.0


From 1c6c930e2c27cd8bcc7a28a2b78f8d8cf5a19c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 21/53] fix: bit-reversed order is made of integers

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 3e329f6..d392727 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -34,7 +34,7 @@ def _bit_reverse(N, nbits=None):
     if nbits is None: nbits = int(np.floor(np.log2(N))) + 1
     ans = 0
     for bit in range(nbits):
-        ans += np.bitwise_and(N.astype('int64'), 2**bit) * 2**(nbits-2*bit-1)
+        ans += ((N.astype('int64') >> bit) & 1) << (nbits-bit-1)
     return ans
 
 def _bit_reverse_order(N):
-- 
2.43.0


From 2bcf9f70e38cff167a2932ff218816ee3a53b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 22/53] fix: adding to a pixel several times in one call does
 not count earlier data again

---
 aipy/map.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index d392727..2191bb0 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -98,10 +98,16 @@ class Map(object):
         ind = [i[crds] / w for i in self.ind]
         if len(ind) == 0: return fluxes
         return (fluxes, ind)
+    def _accumulate(self, hpm, crds, vals):
+        """Add vals to hpm at crds, where crds may address a pixel repeatedly."""
+        inc = healpix.HealpixMap(nside=hpm.nside(), scheme=hpm.scheme(),
+            dtype=hpm.get_dtype())
+        inc[crds] = inc[crds] + vals
+        hpm.map = hpm.map + inc.map
     def add(self, crds, wgts, fluxes, inds=[]):
-        self.wgt[crds] += wgts
-        self.map[crds] += fluxes * wgts
-        for n,i in enumerate(inds): self.ind[n][crds] += i * wgts
+        self._accumulate(self.wgt, crds, wgts)
+        self._accumulate(self.map, crds, fluxes * wgts)
+        for n,i in enumerate(inds): self._accumulate(self.ind[n], crds, i * wgts)
     def put(self, crds, wgts, fluxes, inds=[]):
         self.wgt[crds] = wgts
         self.map[crds] = fluxes * wgts
-- 
2.43.0


From e86e576a77683e84fd33922b4041c5cf853a8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 23/53] fix: resetting map weights keeps the mean for every
 weight

---
 aipy/map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 2191bb0..a110b76 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -114,8 +114,9 @@ class Map(object):
         for n,i in enumerate(inds): self.ind[n][crds] = i * wgts
     def reset_wgt(self, wgt=1):
         w = np.where(self.wgt.map > 0, self.wgt.map, 1)
-        self.map.map /= w
-        for i in self.ind: i.map /= w
+        n = np.where(self.wgt.map > 0, wgt, 1)
+        self.map.map = self.map.map / w * n
+        for i in self.ind: i.map = i.map / w * n
         self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
     def from_map(self, map):
         """Initialize this Map with data from another."""
-- 
2.43.0


From 361a0820391b44efa1fe71b7977634e12b1eb6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 24/53] fix: interpolation returns factor values per sample for
 every factor

---
 aipy/interp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aipy/interp.py b/aipy/interp.py
index 993474c..7b5ad35 100644
--- a/aipy/interp.py
+++ b/aipy/interp.py
@@ -47,10 +47,9 @@ def interpolate(ys, factor, filter=default_filter, order=4):
     Order should be even to make this an averaging filter.  Internally,
     ys is extended by 2nd degree polynomial in both directions to attempt
     a smooth boundary transition."""
-    step = 1./factor
     ys = polyextend(ys, order)
     ys_ss, wgts = subsample(ys, factor)
-    fir = filter(np.arange(-order,order+step,step))
+    fir = filter(np.arange(-order*factor,order*factor+1) / float(factor))
     ys_ss = np.convolve(ys_ss, fir, mode='valid')
     wgts = np.convolve(wgts, fir, mode='valid')
     return ys_ss / wgts
-- 
2.43.0


From ae6d1d26b4808a9b3a183e42ea3d6f52e0eef4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 25/53] fix: the 'none' window has L values

---
 aipy/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/dsp.py b/aipy/dsp.py
index 2538600..c68fcc7 100644
--- a/aipy/dsp.py
+++ b/aipy/dsp.py
@@ -43,7 +43,7 @@ WINDOW_FUNC = {
     'hamming': lambda x,L: .54 - .46 * np.cos(2*np.pi*x/(L-1)),
     'hanning': lambda x,L: .5 - .5 * np.cos(2*np.pi*x/(L-1)),
     'parzen': lambda x,L: 1 - np.abs(L/2. - x) / (L/2.),
-    'none': lambda x,L: 1,
+    'none': lambda x,L: np.ones(L, 'd'),
     'tukey': tukey,
     'barthann': barthann
     }
-- 
2.43.0


From 60de7a8627d2c5e3d97237335222ff1c0d72bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 26/53] fix: an empty array is no sky map

---
 aipy/healpix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index b9610c6..641f4e0 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -207,7 +207,7 @@ class HealpixMap(HealpixBase):
         """Assign data to HealpixMap.map.  Infers Nside from # of pixels via
         Npix = 12 * Nside**2."""
         try:
-            assert(data.ndim == 1)
+            assert(data.ndim == 1 and data.shape[0] > 0)
             nside = self.npix2nside(data.shape[0])
         except(AssertionError,ValueError):
             raise ValueError("Data must be a 1 dim array with 12*N**2 entries.")
-- 
2.43.0


From 767f46ff496c2f458d592e15de239e6c0caae97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 27/53] fix: maxent_findvar estimates the variance with a whole
 number of steps

---
 aipy/deconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index 76d6627..c8fc745 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -208,7 +208,7 @@ def maxent_findvar(im, ker, var=None, f_var0=.6, mdl=None, gain=.1, tol=1e-3,
     if var is None:
         # Get a starting estimate of variance to use via residual of lsq
         junk, info = lsq(im, ker, mdl=mdl, gain=gain, tol=tol,
-            maxiter=maxiter/4, lower=lower, upper=upper, verbose=False)
+            maxiter=maxiter//4, lower=lower, upper=upper, verbose=False)
         var = np.var(info['res'])
         if verbose: print('Using', f_var0, 'of LSQ estimate of var=', var)
         var *= f_var0
-- 
2.43.0


From 6d806b3df5bb1e5f2792063e362477dc00d67a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 28/53] fix: images can be written to FITS files with current
 astropy

---
 aipy/img.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index bc80ca2..acb6633 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -345,7 +345,6 @@ def to_fits(filename, data, clobber=False,
     if len(data.shape) != len(axes):
         raise TypeError('to_fits: axes dimension list does not match data shape')
     phdu = pyfits.PrimaryHDU(data)
-    phdu.update_header()
     #phdu.header.update('TRANSPOS',0,comment='Import code for old AIPY convention.')
     phdu.header['TRANSPOS'] = (0,'Import code for old AIPY convention.')
     phdu.header['OBJECT'] = (object, 'SOURCE NAME')
@@ -378,7 +377,6 @@ def to_fits(filename, data, clobber=False,
         else:
             phdu.header['CDELT%d' % (i+1)]= (delta)
         phdu.header['CROTA%d' % (i+1)] = (0)
-        phdu.header['NAXIS%d' % (i+1)] = (phdu.data.shape[i])
     if history!='':
         history = [h.strip() for h in history.split("\n")]
         for line in history:
@@ -391,7 +389,7 @@ def to_fits(filename, data, clobber=False,
                         phdu.header.add_history(subline)
     phdu.header['ORIGIN'] = (origin)
     phdu.header['DATE'] = (cur_date,'FILE WRITTEN ON DD/MM/YY')
-    pyfits.writeto(filename,phdu.data,phdu.header,clobber=True)
+    pyfits.writeto(filename,phdu.data,phdu.header,overwrite=True)
 
 def from_fits(filename):
     """Read (data,kwds) from a FITS file.  Matches to_fits() above.  Attempts
-- 
2.43.0


From 442960d1cd2bf79ade30c82345a51db2242a861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 29/53] fix: images can be rewritten with the header of another
 FITS file

---
 aipy/img.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index acb6633..ba4ca80 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -434,7 +434,7 @@ def find_axis(phdu,name):
     for k in phdu.header.items():
         if k[0].lower().startswith('ctype'):
             if k[1].lower().startswith(name):
-                return int(k[1][5])
+                return int(k[0][5:])
 
 def from_fits_to_fits(infile,outfile,data,kwds,history=None):
     """
@@ -458,7 +458,6 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
 #            data = phdu.data
 #    except(KeyError):
 #        data = phdu.data
-    phdu.update_header()
     for i,ax in enumerate(axes):
         if ax.lower().startswith('ra'):
              val   = kwds['ra'  ] if 'ra'   in kwds else None
@@ -481,9 +480,9 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if not delta is None:
             phdu.header['CDELT%d' % (i+1)] = (delta)
         phdu.header['CROTA%d' % (i+1)] = (0)
-    for k,v in kwds.iteritems():
+    for k,v in kwds.items():
         try:
-            phdu.header.update(k,v)
+            phdu.header[k] = v
         except(ValueError):
             continue
     if history is None:
@@ -493,4 +492,4 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if len(line)>1:
             for subline in word_wrap(line,70,5,10,'#').split("\n"):
                 phdu.header.add_history(subline)
-    pyfits.writeto(outfile, data, phdu.header, clobber=True)
+    pyfits.writeto(outfile, data, phdu.header, overwrite=True)
-- 
2.43.0


From a383f5ffe3b83d6ee5337d01b44a7ab57f420425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 30/53] fix: sky maps can be written to and read from FITS
 files with current astropy

---
 aipy/healpix.py | 21 ++++++++++-----------
 aipy/map.py     |  4 ++--
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 641f4e0..3b076a7 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -298,20 +298,19 @@ class HealpixMap(HealpixBase):
         hdu = pyfits.open(filename)[hdunum]
         data = hdu.data.field(colnum)
         if not data.dtype.isnative:
-            data.dtype = data.dtype.newbyteorder()
-            data.byteswap(True)
+            data = data.astype(data.dtype.newbyteorder('='))
         scheme= hdu.header['ORDERING'][:4]
         self.set_map(data, scheme=scheme)
     def _set_fits_header(self, hdr):
-        hdr.update('PIXTYPE', 'HEALPIX', 'HEALPIX pixelisation')
+        hdr['PIXTYPE'] = ('HEALPIX', 'HEALPIX pixelisation')
         scheme = self.scheme()
-        if scheme == 'NEST': scheme == 'NESTED'
-        hdr.update('ORDERING', scheme,
+        if scheme == 'NEST': scheme = 'NESTED'
+        hdr['ORDERING'] = (scheme,
             'Pixel ordering scheme, either RING or NESTED')
-        hdr.update('NSIDE', self.nside(), 'Resolution parameter for HEALPIX')
-        hdr.update('FIRSTPIX', 0, "First pixel # (0 based)")
-        hdr.update('LASTPIX', self.npix()-1, "Last pixel # (0 based)")
-        hdr.update('INDXSCHM', 'IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
+        hdr['NSIDE'] = (self.nside(), 'Resolution parameter for HEALPIX')
+        hdr['FIRSTPIX'] = (0, "First pixel # (0 based)")
+        hdr['LASTPIX'] = (self.npix()-1, "Last pixel # (0 based)")
+        hdr['INDXSCHM'] = ('IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
     def get_dtype(self):
         return self.map.dtype
     def to_fits(self, filename, format=None, clobber=True):
@@ -323,7 +322,7 @@ class HealpixMap(HealpixBase):
         hdu0 = pyfits.PrimaryHDU()
         col0 = pyfits.Column(name='signal', format=format, array=self.map)
         cols = pyfits.ColDefs([col0])
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
-        hdulist.writeto(filename,clobber=clobber)
+        hdulist.writeto(filename,overwrite=clobber)
diff --git a/aipy/map.py b/aipy/map.py
index a110b76..9f59440 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -158,7 +158,7 @@ class Map(object):
         col_inds = [pyfits.Column(name='sp_index%d'%n,format=format,array=i.map)
             for n,i in enumerate(self.ind)]
         cols = pyfits.ColDefs([col0, col1] + col_inds)
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self.map._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
         if history!='':
@@ -171,4 +171,4 @@ class Map(object):
                     else:
                         for subline in img.word_wrap(line,70,5,10,'#').split("\n"):
                             hdulist[0].header.add_history(subline)
-        hdulist.writeto(filename, clobber=clobber)
+        hdulist.writeto(filename, overwrite=clobber)
-- 
2.43.0


From 6c0436f476c8639756b3a987f80d3541205666b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 31/53] fix: add2array refuses indices beyond 32 bits,
 non-arrays, byte-swapped and read-only arrays

---
 aipy/utils/utils.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index f2efa77..d388d07 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -43,6 +43,12 @@
         QUOTE(a), QUOTE(r)); \
         return NULL; }
 
+#define CHK_ARRAY_NATIVE(a) \
+    if (PyArray_ISBYTESWAPPED(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s is not in native byte order", \
+        QUOTE(a)); \
+        return NULL; }
+
 #define ADD(ptr0,ptr1,type) \
     *((type *)ptr0) += *((type *)ptr1);
 
@@ -56,7 +62,7 @@ template<typename T> struct AddStuff {
     static int addloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        npy_intp v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -73,7 +79,7 @@ template<typename T> struct AddStuff {
     static int caddloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        npy_intp v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -93,12 +99,20 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     PyArrayObject *a, *ind, *data;
     int rv;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "OOO", &a, &ind, &data)) return NULL;
+    if (!PyArg_ParseTuple(args, "O!O!O!", &PyArray_Type, &a,
+            &PyArray_Type, &ind, &PyArray_Type, &data)) return NULL;
     CHK_ARRAY_RANK(ind, 2);
     CHK_ARRAY_RANK(data, 1);
     CHK_ARRAY_DIM(ind, 0, DIM(data,0));
     CHK_ARRAY_DIM(ind, 1, RANK(a));
     CHK_ARRAY_TYPE(ind, NPY_LONG);
+    CHK_ARRAY_NATIVE(a);
+    CHK_ARRAY_NATIVE(ind);
+    CHK_ARRAY_NATIVE(data);
+    if (!PyArray_ISWRITEABLE(a)) {
+        PyErr_Format(PyExc_ValueError, "a is not writeable");
+        return NULL;
+    }
     if (TYPE(a) != TYPE(data)) {
         printf("%d %d\n", TYPE(a), TYPE(data));
         PyErr_Format(PyExc_ValueError, "type(%s) != type(%s)",
-- 
2.43.0


From f6d1c9f43dab1000085e64e5fc34a80e4cea880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 32/53] fix: gridding and degridding address non-square grids
 with the row length

---
 aipy/_dsp/grid/grid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 3ad8d1e..8633d85 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -59,8 +59,8 @@ int grid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             // XXX should really make sure wgts sum to 1
-            buf[2*(j1mod*buflen1+j2mod)]   += fwgt2 * fdatr;
-            buf[2*(j1mod*buflen1+j2mod)+1] += fwgt2 * fdati;
+            buf[2*(j1mod*buflen2+j2mod)]   += fwgt2 * fdatr;
+            buf[2*(j1mod*buflen2+j2mod)+1] += fwgt2 * fdati;
           }
         }
     }
@@ -87,8 +87,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             tot_wgt += fwgt2;
-            data[2*i] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)];
-            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)+1];
+            data[2*i] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)];
+            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)+1];
           }
         }
         data[2*i] /= tot_wgt;
-- 
2.43.0


From 61d5f6a82ffa0816e904ed97921984b45e078b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 33/53] fix: degridding does not mix in what the output array
 held before

---
 aipy/_dsp/grid/grid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 8633d85..763c1cd 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -75,6 +75,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
         find1 = ind1[i];
         find2 = ind2[i];
         tot_wgt = 0;
+        data[2*i] = 0;
+        data[2*i+1] = 0;
         for (j1 = floorf(find1-footprint/2); j1 <= ceilf(find1+footprint/2); j1++) {
           j1mod = j1 % buflen1;
           j1mod = j1mod < 0 ? j1mod + buflen1 : j1mod;
-- 
2.43.0


From f695328b6dac0d9b0f1f0df399615d503f20d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 34/53] fix: gridding refuses arrays it would misread and reads
 the whole footprint argument

---
 aipy/_dsp/dsp.c | 23 ++++++++++++++++++++---
 aipy/_dsp/dsp.h | 14 ++++++++++++++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index 2c7dd67..31f3883 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -7,7 +7,7 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 1);
@@ -16,6 +16,11 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(buf, NPY_CFLOAT);
     CHK_ARRAY_TYPE(ind, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_CARRAY(buf);
+    CHK_ARRAY_CARRAY(ind);
+    CHK_ARRAY_CARRAY(dat);
+    CHK_ARRAY_WRITEABLE(buf);
+    CHK_ARRAY_NONEMPTY(buf);
     if (PyArray_DIM(ind,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -44,7 +49,7 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
@@ -55,6 +60,12 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_CARRAY(buf);
+    CHK_ARRAY_CARRAY(ind1);
+    CHK_ARRAY_CARRAY(ind2);
+    CHK_ARRAY_CARRAY(dat);
+    CHK_ARRAY_WRITEABLE(buf);
+    CHK_ARRAY_NONEMPTY(buf);
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -85,7 +96,7 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
@@ -96,6 +107,12 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_CARRAY(buf);
+    CHK_ARRAY_CARRAY(ind1);
+    CHK_ARRAY_CARRAY(ind2);
+    CHK_ARRAY_CARRAY(dat);
+    CHK_ARRAY_WRITEABLE(dat);
+    CHK_ARRAY_NONEMPTY(buf);
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
diff --git a/aipy/_dsp/dsp.h b/aipy/_dsp/dsp.h
index 7b3f673..2b2d233 100644
--- a/aipy/_dsp/dsp.h
+++ b/aipy/_dsp/dsp.h
@@ -22,5 +22,19 @@
         PyErr_Format(PyExc_ValueError, "rank(%s) != %s", \
         QUOTE(a), QUOTE(r)); \
         return NULL; }
+// The gridding routines walk through the data as plain C arrays.
+#define CHK_ARRAY_CARRAY(a) \
+    if (!PyArray_ISCARRAY_RO(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s is not a contiguous, native array", \
+        QUOTE(a)); \
+        return NULL; }
+#define CHK_ARRAY_WRITEABLE(a) \
+    if (!PyArray_ISWRITEABLE(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s is not writeable", QUOTE(a)); \
+        return NULL; }
+#define CHK_ARRAY_NONEMPTY(a) \
+    if (PyArray_SIZE(a) == 0) { \
+        PyErr_Format(PyExc_ValueError, "%s is empty", QUOTE(a)); \
+        return NULL; }
 
 #endif
-- 
2.43.0


From e34097db6b544896c1263e79e960e8995508877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 35/53] fix: CLEAN finds the kernel peak whatever area is
 requested

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index eb5be9f..e000d8f 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -70,7 +70,7 @@ template<typename T> struct Clean {
             for (int n2=0; n2 < dim2; n2++) {
                 val = IND2(ker,n1,n2,T);
                 mval = val * val;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     q = val;
                 }
@@ -176,7 +176,7 @@ template<typename T> struct Clean {
         for (int n=0; n < dim; n++) {
             val = IND1(ker,n,T);
             mval = val * val;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 q = val;
             }
@@ -273,7 +273,7 @@ template<typename T> struct Clean {
                 valr = CIND2R(ker,n1,n2,T);
                 vali = CIND2I(ker,n1,n2,T);
                 mval = valr * valr + vali * vali;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     qr = valr; qi = vali;
                 }
@@ -394,7 +394,7 @@ template<typename T> struct Clean {
             valr = CIND1R(ker,n,T);
             vali = CIND1I(ker,n,T);
             mval = valr * valr + vali * vali;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 qr = valr;
                 qi = vali;
-- 
2.43.0


From 1e82b25c7ae10da8bda0e8cb96ba7ef937e5e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 36/53] fix: CLEAN reads the area with the type it checks for

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index e000d8f..86691db 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -92,7 +92,7 @@ template<typename T> struct Clean {
                     val = IND2(res,wrap_n1,wrap_n2,T);
                     mval = val * val;
                     nscore += mval;
-                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         max = val;
                         mmax = mval;
@@ -195,7 +195,7 @@ template<typename T> struct Clean {
                 val = IND1(res,wrap_n,T);
                 mval = val * val;
                 nscore += mval;
-                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,int)) {
+                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     max = val;
                     mmax = mval;
@@ -302,7 +302,7 @@ template<typename T> struct Clean {
                     vali = CIND2I(res,wrap_n1,wrap_n2,T);
                     mval = valr * valr + vali * vali;
                     nscore += mval;
-                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         maxr = valr; maxi = vali;
                         mmax = mval;
@@ -421,7 +421,7 @@ template<typename T> struct Clean {
                 vali = CIND1I(res,wrap_n,T);
                 mval = valr * valr + vali * vali;
                 nscore += mval;
-                if (mval > mmax && IND1(area,wrap_n,int)) {
+                if (mval > mmax && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     maxr = valr;
                     maxi = vali;
-- 
2.43.0


From 8a8434089f44812cfc3bca73e410a75dc9171cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 37/53] fix: CLEAN takes no step when the area holds no
 residual to remove

---
 aipy/_deconv/deconv.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 86691db..b41645e 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -82,6 +82,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // Until a residual is found below
             IND2(mdl,argmax1,argmax2,T) += step;
             // Take next step and compute score
             for (int n1=0; n1 < dim1; n1++) {
@@ -187,6 +188,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // Until a residual is found below
             IND1(mdl,argmax,T) += step;
             // Take next step and compute score
             for (int n=0; n < dim; n++) {
@@ -287,6 +289,7 @@ template<typename T> struct Clean {
             mmax = -1;
             stepr = (T) gain * (maxr * qr - maxi * qi);
             stepi = (T) gain * (maxr * qi + maxi * qr);
+            maxr = 0; maxi = 0;  // Until a residual is found below
             CIND2R(mdl,argmax1,argmax2,T) += stepr;
             CIND2I(mdl,argmax1,argmax2,T) += stepi;
             // Take next step and compute score
@@ -408,6 +411,7 @@ template<typename T> struct Clean {
             mmax = -1;
             stepr = (T) gain * (maxr * qr - maxi * qi);
             stepi = (T) gain * (maxr * qi + maxi * qr);
+            maxr = 0; maxi = 0;  // Until a residual is found below
             CIND1R(mdl,argmax,T) += stepr;
             CIND1I(mdl,argmax,T) += stepi;
             // Take next step and compute score
-- 
2.43.0


From fd37b70d2c50df3af0552bb171dd3485ec7aded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 38/53] fix: CLEAN stops after maxiter iterations when it does
 not stop on divergence

---
 aipy/_deconv/deconv.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index b41645e..85f05b6 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -131,14 +131,11 @@ template<typename T> struct Clean {
                     }
                     best_mdl[argmax1*dim2+argmax2] -= step;
                     best_score = score;
-                    i = 0;  // Reset maxiter counter
                 }
             } else if (score > 0 && std::abs(score - nscore) / firstscore < tol) {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
-                i = 0;  // Reset maxiter counter
             }
             score = nscore;
             argmax1 = nargmax1; argmax2 = nargmax2;
@@ -227,14 +224,11 @@ template<typename T> struct Clean {
                     }
                     best_mdl[argmax] -= step;
                     best_score = score;
-                    i = 0;  // Reset maxiter counter
                 }
             } else if (score > 0 && (score - nscore) / firstscore < tol) {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
-                i = 0;  // Reset maxiter counter
             }
             score = nscore;
             argmax = nargmax;
@@ -347,14 +341,11 @@ template<typename T> struct Clean {
                     best_mdl[2*(argmax1*dim2+argmax2)+0] -= stepr;
                     best_mdl[2*(argmax1*dim2+argmax2)+1] -= stepi;
                     best_score = score;
-                    i = 0;  // Reset maxiter counter
                 }
             } else if (score > 0 && (score - nscore) / firstscore < tol) {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
-                i = 0;  // Reset maxiter counter
             }
             score = nscore;
             argmax1 = nargmax1; argmax2 = nargmax2;
@@ -461,14 +452,11 @@ template<typename T> struct Clean {
                     best_mdl[2*argmax+0] -= stepr;
                     best_mdl[2*argmax+1] -= stepi;
                     best_score = score;
-                    i = 0;  // Reset maxiter counter
                 }
             } else if (score > 0 && (score - nscore) / firstscore < tol) {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
-                i = 0;  // Reset maxiter counter
             }
             score = nscore;
             argmax = nargmax;
-- 
2.43.0


From 76ff1a7ebfb629a1162024f3454a26827efda3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 39/53] fix: CLEAN refuses arrays it would misread

---
 aipy/_deconv/deconv.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 85f05b6..7d4e92d 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -42,6 +42,20 @@
         QUOTE(a), QUOTE(r)); \
         return NULL; }
 
+// The loops address the data directly, in native byte order
+#define CHK_ARRAY_BEHAVED(a) \
+    if (!PyArray_ISBEHAVED_RO(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s is not an aligned, native array", \
+        QUOTE(a)); \
+        return NULL; }
+#define CHK_ARRAY_WRITEABLE(a) \
+    if (!PyArray_ISWRITEABLE(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s is not writeable", QUOTE(a)); \
+        return NULL; }
+#define CHK_ARRAY_NONEMPTY(a) \
+    if (PyArray_SIZE(a) == 0) { \
+        PyErr_Format(PyExc_ValueError, "%s is empty", QUOTE(a)); \
+        return NULL; }
 
 // A template for implementing addition loops for different data types
 template<typename T> struct Clean {
@@ -505,7 +519,13 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
         dim1 = DIM(res,0); dim2 = DIM(res,1);
         CHK_ARRAY_DIM(ker, 0, dim1); CHK_ARRAY_DIM(mdl, 0, dim1); CHK_ARRAY_DIM(area, 0, dim1);
         CHK_ARRAY_DIM(ker, 1, dim2); CHK_ARRAY_DIM(mdl, 1, dim2); CHK_ARRAY_DIM(area, 1, dim2);
+    } else {
+        PyErr_Format(PyExc_ValueError, "Number of dimensions != 1 or 2");
+        return NULL;
     }
+    CHK_ARRAY_NONEMPTY(res);
+    CHK_ARRAY_BEHAVED(res); CHK_ARRAY_BEHAVED(ker); CHK_ARRAY_BEHAVED(mdl); CHK_ARRAY_BEHAVED(area);
+    CHK_ARRAY_WRITEABLE(res); CHK_ARRAY_WRITEABLE(mdl);
     if (TYPE(res) != TYPE(ker) || TYPE(res) != TYPE(mdl)) {
         PyErr_Format(PyExc_ValueError, "array types must match");
         return NULL;
-- 
2.43.0


From 915a3a7b337780fdd7bb6b07109dd616089d9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 40/53] fix: records keep their own coordinates, time and
 baseline

uvwrite marked the preamble variables as not change-checked and kept its own
copy of their values: the starting copies could equal the first record's
values, and values stored by other means (copyvr, direct assignment) went
unnoticed.  In both cases records were read back with the wrong values.
---
 aipy/_miriad/mir/uvio.c | 59 ++++++++---------------------------------
 1 file changed, 11 insertions(+), 48 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 0b18131..5ce6b18 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1980,7 +1980,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
   UV *uv;
   int i,nchan,i1,i2,nuvw,itemp;
   float maxval,scale,*p,temp;
-  double *d,dtemp;
+  double dtemp;
   int *q;
   char *counter,*status;
   FLAGS *flags_info;
@@ -2019,33 +2019,9 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 
 /* Create the preamble variables, if needed. */
 
-    if( uv->coord == NULL ){
-      uv->coord = uv_mkvar(tno,"coord",H_DBLE);
-      uv->coord->flags |= UVF_NOCHECK;
-      if(uv->coord->buf == NULL){
-        uv->coord->buf = Malloc(3*sizeof(double));
-        d = (double *)(uv->coord->buf);
-        *d = *(preamble) + 1000;
-      }
-    }
-
-    if( uv->time == NULL ){
-      uv->time = uv_mkvar(tno,"time",H_DBLE);
-      uv->time->flags |= UVF_NOCHECK;
-      if(uv->time->buf == NULL){
-	uv->time->buf = Malloc(sizeof(double));
-	*(double *)(uv->time->buf) = *(preamble+2) + 1000;
-      }
-    }
-
-    if( uv->bl == NULL ){
-      uv->bl = uv_mkvar(tno,"baseline",H_REAL);
-      uv->bl->flags |= UVF_NOCHECK;
-      if(uv->bl->buf == NULL){
-	uv->bl->buf = Malloc(sizeof(float));
-	*(float *)(uv->bl->buf) = *(preamble + 3) + 1000;
-      }
-    }
+    if( uv->coord == NULL ) uv->coord = uv_mkvar(tno,"coord",H_DBLE);
+    if( uv->time == NULL )  uv->time = uv_mkvar(tno,"time",H_DBLE);
+    if( uv->bl == NULL )    uv->bl = uv_mkvar(tno,"baseline",H_REAL);
   }
 
 /* Get info on whether we are dealing with corr or wcorr data. */
@@ -2100,33 +2076,20 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     uvputvrj_c(tno,v->name,(int *)v->buf,2*n);
   }
 
-/* Write out the preamble. */
+/* Write out the preamble (uvputvr skips values that have not changed). */
 
-  d = (double *)(uv->coord->buf);
   nuvw = (uv->flags & UVF_DOW ? 3 : 2);
-  if( *d != *preamble || *(d+1) != *(preamble+1) || 
-      ( nuvw == 3 && *(d+2) != *(preamble+2) ) ){
-    uvputvrd_c(tno,"coord",preamble,nuvw);
-    *d = *preamble;
-    *(d+1) = *(preamble+1);
-    if(nuvw == 3) *(d+2) = *(preamble+2);
-  }
+  uvputvrd_c(tno,"coord",preamble,nuvw);
   preamble += nuvw;
 
   dtemp = *preamble++;
-  if( dtemp != *(double *)(uv->time->buf) ){
-    uvputvrd_c(tno,"time",&dtemp,1);
-    *(double *)(uv->time->buf) = dtemp;
-  }
+  uvputvrd_c(tno,"time",&dtemp,1);
 
   temp = *preamble++;
-  if( temp != *(float *)(uv->bl->buf) ){
-    itemp = temp;
-    uvbasant_c(itemp,&i1,&i2);
-    uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
-    uvputvrr_c(tno,"baseline",&temp,1);
-    *(float *)(uv->bl->buf) = temp;
-  }
+  itemp = temp;
+  uvbasant_c(itemp,&i1,&i2);
+  uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
+  uvputvrr_c(tno,"baseline",&temp,1);
 
 /* Write an end-of-record marker. */
 
-- 
2.43.0


From 8698cb13229d6cc4553fd0fc3a870965e3bb4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 41/53] fix: header items are read back as written

hread built the byte string of a text item from an unterminated buffer and
dropped NUL bytes, text was decoded byte by byte and its length counted in
characters instead of bytes, the bytes of a string were used after they had
been released, and 16-bit items passed a short where MIRIAD stores an int.
The mixed-type branch of _rdhd referred to a module that does not exist.
---
 aipy/_common/aipy_compat.h   | 24 +++++++++++-------------
 aipy/_miriad/miriad_wrap.cpp | 22 +++++++++++-----------
 aipy/miriad.py               | 10 +++++-----
 3 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/aipy/_common/aipy_compat.h b/aipy/_common/aipy_compat.h
index 20300da..31a9326 100644
--- a/aipy/_common/aipy_compat.h
+++ b/aipy/_common/aipy_compat.h
@@ -10,24 +10,22 @@
 # define PyInt_Check PyLong_Check
 # define PyString_FromString PyUnicode_FromString
 # define PyString_Check PyUnicode_Check
-# define PyString_Size PyUnicode_GET_LENGTH
 # define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 
+/* UTF-8 bytes of a string; the memory belongs to the string. */
 static char *
 PyString_AsString(PyObject *ob)
 {
-    PyObject *enc;
-    char *cstr;
-
-    enc = PyUnicode_AsEncodedString(ob, "utf-8", "Error");
-    if (enc == NULL) {
-        PyErr_Format(PyExc_ValueError, "Cannot encode string");
-        return NULL;
-    }
-
-    cstr = PyBytes_AsString(enc);
-    Py_XDECREF(enc);
-    return cstr;
+    return (char *) PyUnicode_AsUTF8(ob);
+}
+
+static Py_ssize_t
+PyString_Size(PyObject *ob)
+{
+    Py_ssize_t size = 0;
+
+    if (PyUnicode_AsUTF8AndSize(ob, &size) == NULL) return -1;
+    return size;
 }
 #endif
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index c7c5e38..7563b7b 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -333,6 +333,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(wr_val);
                 st = PyString_AsString(wr_val);
+                if (st == NULL) return NULL;
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
@@ -500,7 +501,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char *st;
+    int in; long lg; float fl; double db; float cx[2]; char *st;
     if (!PyArg_ParseTuple(args, "iiOs", &item_hdl, &offset, &val, &type))
         return NULL;
     try {
@@ -508,6 +509,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(val);
                 st = PyString_AsString(val);
+                if (st == NULL) return NULL;
                 in = PyString_Size(val); // # bytes to write
                 hwriteb_c(item_hdl, st, offset, in, &iostat);
                 CHK_IO(iostat);
@@ -522,8 +524,8 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
                 break;
             case 'j':
                 CHK_INT(val);
-                sh = (short) PyInt_AsLong(val);
-                hwritej_c(item_hdl, &sh, offset, H_INT2_SIZE, &iostat);
+                in = (short) PyInt_AsLong(val); // MIRIAD unpacks int2 to int
+                hwritej_c(item_hdl, &in, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT2_SIZE;
                 break;
@@ -573,7 +575,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val, *rv;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char st[2];
+    int in; long lg; float fl; double db; float cx[2]; char st[2];
     if (!PyArg_ParseTuple(args, "iis", &item_hdl, &offset, &type))
         return NULL;
     try {
@@ -581,19 +583,17 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
             case 'a':
                 hreadb_c(item_hdl, st, offset, H_BYTE_SIZE, &iostat);
                 CHK_IO(iostat);
-#if PY_MAJOR_VERSION >= 3
-                return Py_BuildValue("yi", st, H_BYTE_SIZE);
-#else
-                return Py_BuildValue("si", st, H_BYTE_SIZE);
-#endif
+                val = PyBytes_FromStringAndSize(st, H_BYTE_SIZE);
+                CHK_NULL(val);
+                return Py_BuildValue("Ni", val, H_BYTE_SIZE);
             case 'i':
                 hreadi_c(item_hdl, &in, offset, H_INT_SIZE, &iostat);
                 CHK_IO(iostat);
                 return Py_BuildValue("ii", in, H_INT_SIZE);
             case 'j':
-                hreadj_c(item_hdl, &sh, offset, H_INT2_SIZE, &iostat);
+                hreadj_c(item_hdl, &in, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
-                return Py_BuildValue("ii", sh, H_INT2_SIZE);
+                return Py_BuildValue("ii", in, H_INT2_SIZE);
             case 'l':
                 hreadl_c(item_hdl, &lg, offset, H_INT8_SIZE, &iostat);
                 CHK_IO(iostat);
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 671f5fb..0a17840 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -119,16 +119,16 @@ class UV(_miriad.UV):
             while True:
                 try: c, o = _miriad.hread(h, offset, itype)
                 except(IOError): break
-                if itype == 'a':
-                    try: c = str(c[:o], 'utf-8')
-                    except(TypeError): c = c[:o]
                 rv.append(c)
                 offset += o
-            if itype == 'a': rv = ''.join(rv)
+            if itype == 'a':
+                # Characters may span several bytes
+                rv = b''.join(rv)
+                if not isinstance(rv, str): rv = rv.decode('utf-8')
         else:
             t, offset = _miriad.hread_init(h); assert(t == 'b')
             for t in itype:
-                v, o = _miread.hread(h, offset, t)
+                v, o = _miriad.hread(h, offset, t)
                 rv.append(v); offset += o
         _miriad.hdaccess(h)
         if len(rv) == 1: return rv[0]
-- 
2.43.0


From c8aa920452b43de72aec4bce38d590c1c485d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 42/53] fix: records of different lengths are read whole

---
 aipy/miriad.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 0a17840..9cd3f4b 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -218,9 +218,11 @@ class UV(_miriad.UV):
         """Return the next data record.  Calling this function causes
         vars to change to reflect the record which this function returns.
         'raw' causes data and flags to be returned seperately."""
-        preamble, data, flags, nread = self.raw_read(self.nchan)
+        # Records may differ in length, so make room for the longest one
+        preamble, data, flags, nread = self.raw_read(_miriad.MAXCHAN)
         if nread == 0: raise IOError("No data read")
-        flags = np.logical_not(flags)
+        data = data[:nread].copy()
+        flags = np.logical_not(flags[:nread])
         if raw: return preamble, data, flags
         return preamble, np.ma.array(data, mask=flags)
     def all(self, raw=False):
-- 
2.43.0


From 41cb7bd834fd95377fb18f287149daf96b1d9555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 43/53] fix: write masked arrays that have no mask array

---
 aipy/miriad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 9cd3f4b..d846532 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -240,7 +240,7 @@ class UV(_miriad.UV):
         if not flags is None: flags = np.logical_not(flags)
         elif len(data.mask.shape) == 0:
             flags = np.ones(data.shape)
-            data = data.unmask()
+            data = data.data
         else:
             flags = np.logical_not(data.mask)
             #data = data.filled(0)
-- 
2.43.0


From 8ffd4b8495e33fa98be857d7bb47ace784f1ec90 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:52:16 +0000
Subject: [PATCH 44/53] fix: variables are written and read with their own
 type, length and layout

Text kept a trailing NUL, complex numbers were exchanged as doubles, 16-bit and
32-bit integers were taken from memory of another width, non-contiguous arrays
were misread, and numbers too large for the variable were cut off.
---
 aipy/_miriad/mir/uvio.c      |  20 ++--
 aipy/_miriad/miriad_wrap.cpp | 171 ++++++++++++++++++++---------------
 2 files changed, 109 insertions(+), 82 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 5ce6b18..7e0d81a 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1240,6 +1240,8 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* We are going to have to create it. */
 
   uv = uvs[tno];
+  if(uv->nvar >= MAXVAR)
+    ERROR('f',(message,"Too many variables, in UVPUTVR"));
   n = uv->nvar++;
   v = &uv->variable[n];
   Strcpy(v->name,name);
@@ -1248,7 +1250,7 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* Add it to the hash table. */
 
   hashval = 0;
-  while(*name)hashval += *name++;
+  while(*name)hashval += (unsigned char) *name++;
   hashval %= HASHSIZE;
   v->fwd = uv->vhash[hashval];
   uv->vhash[hashval] = v;
@@ -1266,7 +1268,7 @@ private VARIABLE *uv_locvar(int tno,char *name)
   char *s;
 
   hashval = 0;
-  for(s=name; *s; s++) hashval += *s;
+  for(s=name; *s; s++) hashval += (unsigned char) *s;
 
   for(v = uvs[tno]->vhash[hashval%HASHSIZE]; v != NULL; v = v->fwd)
 	if(!strcmp(v->name,name))break;
@@ -1733,8 +1735,7 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwritei_c(uv->item,&v->length,uv->offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
     CHECK(iostat,(message,"Error writing variable-length for %s, in UVPUTVR",var));
     uv->offset += UV_ALIGN;
-    if( !(v->flags & UVF_NOCHECK) )
-      v->buf = Realloc(v->buf,n*internal_size[type]);
+    if(data != v->buf) v->buf = Realloc(v->buf,n*internal_size[type]);
   }
 
 /* Check if this variable has really changed.  */
@@ -1761,12 +1762,9 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwrite_c(uv->item,type,data,uv->offset,v->length,&iostat);
     CHECK(iostat,(message,"Error writing variable-value for %s, in UVPUTVR",var));
     uv->offset = mroundup( uv->offset+v->length, UV_ALIGN);
-    if(v->callno++ > CHECK_THRESH) {
-      v->flags |= UVF_NOCHECK;
-    } else if(!(v->flags & UVF_NOCHECK)){
-      length = internal_size[type] * n;
-      memcpy(v->buf,data,length);
-    } 
+    if(v->callno++ > CHECK_THRESH) v->flags |= UVF_NOCHECK;
+    length = internal_size[type] * n;
+    if(data != v->buf) memcpy(v->buf,data,length);
   } else {
     v->callno = 0;
   }
@@ -1886,7 +1884,7 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
-      v = &uv->variable[(int) *s];       /*  warning: array subscript has type `char' */
+      v = &uv->variable[(unsigned char) *s];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
     }
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 7563b7b..d1fc3c5 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -1,11 +1,10 @@
 #include <Python.h>
 #include "numpy/arrayobject.h"
 #include <string>
+#include <limits.h>
 #include "aipy_compat.h"
 #include "miriad_wrap.h"
 
-#define MAXVAR 32768
-
 /*____                           _                    _
  / ___|_ __ ___  _   _ _ __   __| |_      _____  _ __| | __
 | |  _| '__/ _ \| | | | '_ \ / _` \ \ /\ / / _ \| '__| |/ /
@@ -216,72 +215,53 @@ PyObject * UVObject_trackvr(UVObject *self, PyObject *args) {
     if (length == 1) { \
         uvgetvr_c(self->tno,htype,name,value,length); \
         return pyconstructor((type1) ((type2 *)value)[0]); } \
+    RET_ARRAY(htype,npy_type)
+
+#define RET_ARRAY(htype,npy_type) \
     rv = (PyArrayObject *) PyArray_SimpleNew(1,dims,npy_type); \
     CHK_NULL(rv); \
-    uvgetvr_c(self->tno,htype,name,(char *)(PyArray_DATA(rv)),length);\
+    try { \
+        uvgetvr_c(self->tno,htype,name,(char *)(PyArray_DATA(rv)),length);\
+    } catch (MiriadError &e) { \
+        Py_DECREF(rv); \
+        throw; \
+    } \
     return PyArray_Return(rv);
 
 /* rdvr is responsible for reading variables of all types.  It wraps the
  * output of uvgetvr_c into various python structures, and returns
  * arrays as numpy arrays. */
 PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
-    char *name, *type, value[MAXVAR];
+    char *name, *type, vtype, value[2*sizeof(double)], *st;
     int length, updated;
     npy_intp dims[1];
     PyArrayObject *rv;
-    int elem_size;
+    PyObject *str;
 
     if (!PyArg_ParseTuple(args, "ss", &name, &type))
         return NULL;
 
-
-    uvprobvr_c(self->tno, name, value, &length, &updated);
-
-    switch (type[0]) {
-    case 'a':
-        elem_size = 1;
-        break;
-    case 'j':
-        elem_size = 2;
-        break;
-    case 'i':
-        elem_size = 4;
-        break;
-    case 'r':
-        elem_size = 4;
-        break;
-    case 'd':
-        elem_size = 8;
-        break;
-    case 'c':
-        elem_size = 8;
-        break;
-    default:
-        PyErr_Format(PyExc_ValueError, "unknown type of UV variable \"%s\": %c", name, type[0]);
-        return NULL;
-    }
-
-    if (length * elem_size > MAXVAR) {
-        PyErr_Format(PyExc_ValueError, "UV variable \"%s\" too big for aipy's "
-                     "internal buffers", name);
-        return NULL;
-    }
-
+    uvprobvr_c(self->tno, name, &vtype, &length, &updated);
     dims[0] = length;
     try {
         switch (type[0]) {
             case 'a':
-                uvgetvr_c(self->tno,H_BYTE,name,value,length+1);
-                return PyString_FromStringAndSize(value, length);
+                // Room for the NUL that uvgetvr_c puts after the string
+                st = (char *) malloc(length+1);
+                CHK_NULL(st);
+                try {
+                    uvgetvr_c(self->tno,H_BYTE,name,st,length+1);
+                } catch (MiriadError &e) {
+                    free(st);
+                    throw;
+                }
+                // The NUL that wrvr stores is not part of the string
+                if (length > 0 && st[length-1] == 0) length--;
+                str = PyString_FromStringAndSize(st, length);
+                free(st);
+                return str;
             case 'j':
-                uvgetvr_c(self->tno,H_INT2,name,value,length);
-                if (length == 1)
-                    return PyInt_FromLong((long) ((short *)value)[0]);
-                rv = (PyArrayObject *) PyArray_SimpleNew(1, dims, NPY_INT);
-                CHK_NULL(rv);
-                for (int i=0; i < length; i++)
-                    IND1(rv,i,int) = ((short *)value)[i];
-                return PyArray_Return(rv);
+                RET_IA(H_INT2,PyInt_FromLong,long,int,NPY_INT);
             case 'i':
                 RET_IA(H_INT,PyInt_FromLong,long,int,NPY_INT);
             case 'r':
@@ -291,15 +271,13 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
             case 'c':
                 if (length == 1) {
                     uvgetvr_c(self->tno,H_CMPLX,name,value,length);
-                    return PyComplex_FromDoubles(((double *)value)[0],
-                                                 ((double *)value)[1]);
+                    return PyComplex_FromDoubles(((float *)value)[0],
+                                                 ((float *)value)[1]);
                 }
-                rv = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_CDOUBLE);
-                CHK_NULL(rv);
-                uvgetvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(rv),length);
-                return PyArray_Return(rv);
+                RET_ARRAY(H_CMPLX,NPY_CFLOAT);
             default:
-                return NULL; /* can't happen with previous switch */
+                PyErr_Format(PyExc_ValueError, "unknown type of UV variable \"%s\": %c", name, type[0]);
+                return NULL;
         }
     } catch (MiriadError &e) {
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
@@ -307,19 +285,69 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     }
 }
 
-#define STORE_IA(npy_type,htype,chk_type,type,pyconverter) \
-    if (PyArray_Check(wr_val)) { \
-        CHK_ARRAY_TYPE(wr_arr,npy_type); \
-        uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(wr_arr),DIM(wr_arr,0)); \
-    } else { \
-        chk_type(wr_val); \
-        ((type *)value)[0] = (type) pyconverter(wr_val); \
-        uvputvr_c(self->tno,htype,name,value,1); }
+/* Write an array as a variable.  The numbers are first brought to the type and
+ * the (contiguous) layout that uvputvr_c reads. */
+static int store_array(int tno, int htype, const char *name, PyArrayObject *arr, int npy_type) {
+    PyArrayObject *c;
+    if (DIM(arr,0) == 0) {
+        PyErr_Format(PyExc_ValueError, "UV variable \"%s\" needs at least one value", name);
+        return -1;
+    }
+    c = (PyArrayObject *) PyArray_FROMANY((PyObject *) arr, npy_type, 1, 1,
+            NPY_ARRAY_IN_ARRAY | NPY_ARRAY_NOTSWAPPED | NPY_ARRAY_FORCECAST);
+    if (c == NULL) return -1;
+    try {
+        uvputvr_c(tno,htype,name,(char *) PyArray_DATA(c),DIM(c,0));
+    } catch (MiriadError &e) {
+        Py_DECREF(c);
+        throw;
+    }
+    Py_DECREF(c);
+    return 0;
+}
+
+/* Write an integer or an array of integers, all of which lie between lo and hi. */
+static int store_int(int tno, int htype, const char *name, PyObject *val, long lo, long hi) {
+    PyArrayObject *arr;
+    long v;
+    int i, rv;
+    if (!PyArray_Check(val)) {
+        v = PyInt_AsLong(val);
+        if (v == -1 && PyErr_Occurred()) return -1;
+        if (v < lo || v > hi) {
+            PyErr_Format(PyExc_OverflowError, "UV variable \"%s\" cannot hold %ld", name, v);
+            return -1;
+        }
+        i = (int) v;
+        uvputvr_c(tno,htype,name,(char *) &i,1);
+        return 0;
+    }
+    arr = (PyArrayObject *) PyArray_FROMANY(val, NPY_LONG, 1, 1, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_NOTSWAPPED);
+    if (arr == NULL) return -1;
+    for (i=0; i < DIM(arr,0); i++) {
+        v = ((long *) PyArray_DATA(arr))[i];
+        if (v < lo || v > hi) {
+            PyErr_Format(PyExc_OverflowError, "UV variable \"%s\" cannot hold %ld", name, v);
+            Py_DECREF(arr);
+            return -1;
+        }
+    }
+    try {
+        rv = store_array(tno,htype,name,arr,NPY_INT);
+    } catch (MiriadError &e) {
+        Py_DECREF(arr);
+        throw;
+    }
+    Py_DECREF(arr);
+    return rv;
+}
+
+#define STORE_IA(npy_type,htype,chk_type,type,pyconverter)     if (PyArray_Check(wr_val)) {         CHK_ARRAY_TYPE(wr_arr,npy_type);         if (store_array(self->tno,htype,name,wr_arr,npy_type) != 0) return NULL;     } else {         chk_type(wr_val);         ((type *)value)[0] = (type) pyconverter(wr_val);         uvputvr_c(self->tno,htype,name,value,1); }
 
 /* wrvr is the complement of rdvr that uses uvputvr_c to write variables of
  * various types.  Accepts numpy arrays for writing. */
 PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
-    char *name, *type, value[MAXVAR];
+    char *name, *type, value[2*sizeof(double)];
     char *st;
     PyObject *wr_val;
     PyArrayObject *wr_arr=NULL;
@@ -337,10 +365,12 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
-                STORE_IA(NPY_LONG,H_INT2,CHK_INT,short,PyInt_AsLong);
+                if (!PyArray_Check(wr_val)) CHK_INT(wr_val);
+                if (store_int(self->tno,H_INT2,name,wr_val,-32768,32767) != 0) return NULL;
                 break;
             case 'i':
-                STORE_IA(NPY_LONG,H_INT,CHK_INT,int,PyInt_AsLong);
+                if (!PyArray_Check(wr_val)) CHK_INT(wr_val);
+                if (store_int(self->tno,H_INT,name,wr_val,INT_MIN,INT_MAX) != 0) return NULL;
                 break;
             case 'r':
                 STORE_IA(NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
@@ -350,13 +380,12 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 break;
             case 'c':
                 if (PyArray_Check(wr_val)) {
-                    CHK_ARRAY_TYPE(wr_arr,NPY_CDOUBLE);
-                    uvputvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(wr_arr),
-                        DIM(wr_arr,0));
+                    if (TYPE(wr_arr) != NPY_CFLOAT) CHK_ARRAY_TYPE(wr_arr,NPY_CDOUBLE);
+                    if (store_array(self->tno,H_CMPLX,name,wr_arr,NPY_CFLOAT) != 0) return NULL;
                 } else {
                     CHK_COMPLEX(wr_val);
-                    ((double *)value)[0] = PyComplex_RealAsDouble(wr_val);
-                    ((double *)value)[1] = PyComplex_ImagAsDouble(wr_val);
+                    ((float *)value)[0] = (float) PyComplex_RealAsDouble(wr_val);
+                    ((float *)value)[1] = (float) PyComplex_ImagAsDouble(wr_val);
                     uvputvr_c(self->tno,H_CMPLX,name,value,1);
                 }
                 break;
-- 
2.43.0


From eb7088cd545ebd17413095e7951a582dc0358ebf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:52:42 +0000
Subject: [PATCH 45/53] fix: an error no longer closes and deletes the other
 open data sets

Every second fatal error called habort_c, although the handler that Python sets
goes on using the data sets: those being written were deleted.
---
 aipy/_miriad/mir/bug.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/bug.c b/aipy/_miriad/mir/bug.c
index 51d3fed..cd01bd8 100644
--- a/aipy/_miriad/mir/bug.c
+++ b/aipy/_miriad/mir/bug.c
@@ -113,8 +113,10 @@ void bug_c(char s,Const char *m)
 
   fprintf(stderr,"### %s:  %s\n",p,m);
   if(doabort){
-    reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if (bug_cleanup == NULL) {  /* a handler goes on using what is open */
+        reentrant = !reentrant;
+        if(reentrant)habort_c();
+    }
 #ifdef vms
 # include ssdef
     lib$stop(SS$_ABORT);
@@ -167,8 +169,10 @@ void bugv_c(char s,Const char *m, ...)
   va_end(ap);
 
   if(doabort){
-    reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if (bug_cleanup == NULL) {  /* a handler goes on using what is open */
+        reentrant = !reentrant;
+        if(reentrant)habort_c();
+    }
     if (bug_cleanup) {
         (*bug_cleanup)();       /* call it */
         fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
-- 
2.43.0


From 540f4ea1e93387bc55f7f227aa48df4af77d1a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 46/53] fix: long names no longer overflow the buffer of error
 messages

---
 aipy/_miriad/mir/uvio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 7e0d81a..8d95e36 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -326,8 +326,9 @@
 /*----------------------------------------------------------------------*/
 
 #define BUG(sev,a)   bug_c(sev,a)
-#define ERROR(sev,a) bug_c(sev,((void)sprintf a,message))
-#define CHECK(x,a) if(x) {  bug_c('w',((void)sprintf a,message)); \
+#define MESSAGE(buf,...) ((void)snprintf(buf,sizeof(buf),__VA_ARGS__),buf)
+#define ERROR(sev,a) bug_c(sev,MESSAGE a)
+#define CHECK(x,a) if(x) {  bug_c('w',MESSAGE a); \
 			    bugno_c('f',x);			 \
 			 }
 
-- 
2.43.0


From c7d136a526ef110a4cc9e2f7db0fdb90c918854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 47/53] fix: refuse a record without channels instead of losing
 it

---
 aipy/_miriad/miriad_wrap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index d1fc3c5..5e330a1 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -178,6 +178,9 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     } catch (MiriadError &e) {
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
+    } else if (DIM(data,0) == 0) {
+        PyErr_Format(PyExc_ValueError, "a record needs at least one channel");
+        return NULL;
     }
     Py_INCREF(Py_None);
     return Py_None;
-- 
2.43.0


From 69e0fd5983831b63c85b73df70c7408e5792abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 48/53] fix: refuse writing to a data set opened for reading,
 and reading one being written

---
 aipy/_miriad/mir/uvio.c      | 9 +++++++++
 aipy/_miriad/miriad_wrap.cpp | 7 ++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 8d95e36..61b9743 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1330,6 +1330,8 @@ void uvrewind_c(int tno)
   int i;
 
   uv = uvs[tno];
+  if(uv->flags & (UVF_NEW|UVF_APPEND))
+    BUG('f',"File is not opened for reading, in UVREWIND");
 
   uv->callno = uv->mark = 0;
   for(i=0, v = uv->variable; i < uv->nvar; i++, v++) 
@@ -1719,6 +1721,8 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     return;
   }
   uv = uvs[tno];
+  if(!(uv->flags & (UVF_NEW|UVF_APPEND)))
+    ERROR('f',(message,"Variable %s cannot be written to a file opened for reading, in UVPUTVR",var));
   v = uv_mkvar(tno,(char *)var,type);
   if(v->type != type)
     ERROR('f',(message,"Variable %s has changed type, in UVPUTVR",var));
@@ -1987,6 +1991,9 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 
   uv = uvs[tno];
 
+  if(!(uv->flags & (UVF_NEW|UVF_APPEND)))
+    BUG('f',"File is not opened for writing, in UVWRITE");
+
 /* Initialise things if this is the first call to uvwrite. */
 
   if(!(uv->flags & UVF_INIT)){
@@ -2792,6 +2799,8 @@ void uvread_c(int tno,double *preamble,float *data,int *flags,int n,int *nread)
   int more,nchan;
   VARIABLE *v;
   uv = uvs[tno];
+  if(uv->flags & (UVF_NEW|UVF_APPEND))
+    BUG('f',"File is not opened for reading, in UVREAD");
 
 /* Initialise everything if this is the first call to uvread. */
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 5e330a1..bb096e5 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -82,7 +82,12 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
 
 // Thin wrapper over uvrewind_c
 PyObject * UVObject_rewind(UVObject *self) {
-    uvrewind_c(self->tno);
+    try {
+        uvrewind_c(self->tno);
+    } catch (MiriadError &e) {
+        PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+        return NULL;
+    }
     self->intcnt = -1;
     self->curtime = -1;
     Py_INCREF(Py_None);
-- 
2.43.0


From 24072e23a57dfe3f890b7d0d3e6b259963433c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 49/53] fix: an open that fails leaves nothing behind

---
 aipy/_miriad/mir/dio.c       |  3 +++
 aipy/_miriad/mir/hio.c       | 14 ++++++++------
 aipy/_miriad/mir/miriad.h    |  1 +
 aipy/_miriad/mir/uvio.c      | 20 ++++++++++++++++++++
 aipy/_miriad/miriad_wrap.cpp | 25 ++++++++++++++++++++-----
 5 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index 4adad9d..2350872 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -50,6 +50,7 @@
 #include "miriad.h"
 
 #define MAXPATH 1024
+#define MAXITEM 16	/* Room for a slash and an item's name */
 
 #ifndef NULL
 #  define NULL 0
@@ -88,6 +89,8 @@ void dtrans_c(char *inpath,char *outpath,int *iostat)
   char *s;
 
   *iostat = 0;
+  if(*inpath == 0){ *iostat = ENOENT; return; }
+  if(strlen(inpath) + MAXITEM >= MAXPATH){ *iostat = ENAMETOOLONG; return; }
   Strcpy(outpath,inpath);
   s = outpath + strlen(outpath) - 1;
   if(*s != '/')Strcat(outpath,"/");
diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index f612bd1..83caf06 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -203,8 +203,8 @@ void hopen_c(int *tno,Const char *name,Const char *status,int *iostat)
 /* Tidy up before we return. Make sure things are tidy if an error
    occurred during the operation. */
 
-  *tno = t->handle;
-  if(*iostat) hclose_c(*tno);
+  if(*iostat) hclose_c(t->handle);
+  else *tno = t->handle;
 
 }
 /************************************************************************/
@@ -452,7 +452,8 @@ void hclose_c(int tno)
 /* Close any open items. */
 
   t = hget_tree(tno);
-  for(item=t->itemlist; item != NULL; item = item->fwd){
+  for(item=t->itemlist; item != NULL; item = it2){
+    it2 = item->fwd;			/* hdaccess may release the item */
     if(item->flags & ACCESS_MODE){
       bugv_c('w',"Closing item -- %s",item->name);
       hdaccess_c(item->handle,&iostat);			check(iostat);
@@ -1494,10 +1495,11 @@ private TREE *hcreate_tree_c(char *name)
 /* Hash the name. */
 
   s = name;
-  hash = ntree++;
-  if(ntree > MAXOPEN)
+  hash = ntree;
+  if(ntree >= MAXOPEN)
     bugv_c('f',"Tree address table overflow, in hio, ntree=%d MAXOPEN=%d",ntree,MAXOPEN);
-  while(*s) hash += *s++;
+  ntree++;
+  while(*s) hash += (unsigned char) *s++;
   hash %= MAXOPEN;
 
 /* Find a slot in the list of addresses, and allocate it. */
diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index c318be2..469d491 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -203,6 +203,7 @@ void dreaddir_c  (char *contxt, char *path, int length);
 
 void uvopen_c   (int *tno, Const char *name, Const char *status);
 void uvclose_c  (int tno);
+void uvdiscard_c(int tno);
 void uvflush_c  (int tno);
 void uvnext_c   (int tno);
 void uvrewind_c (int tno);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 61b9743..e7902cf 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -835,6 +835,26 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
   } else ERROR('f',(message,"Status %s is not recognised by UVOPEN",status));
 }
 /************************************************************************/
+void uvdiscard_c(int tno)
+/*
+  Give up a uv file whose opening failed. Nothing is written.
+
+  Input:
+    tno		Handle of the uv data set.
+------------------------------------------------------------------------*/
+{
+  UV *uv;
+  int iostat;
+
+  uv = uvs[tno];
+  if(uv != NULL){
+    if(uv->item) hdaccess_c(uv->item,&iostat);
+    uv_freeuv(uv);
+    uvs[tno] = NULL;
+  }
+  hclose_c(tno);
+}
+/************************************************************************/
 void uvclose_c(int tno)
 /**uvclose -- Close a uv file						*/
 /*&rjs                                                                  */
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index bb096e5..d4e0d5e 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -24,7 +24,18 @@ typedef struct {
 
 // Deallocate memory when Python object is deleted
 static void UVObject_dealloc(UVObject *self) {
-    if (self->tno != -1) uvclose_c(self->tno);
+    if (self->tno != -1) {
+        try {
+            uvclose_c(self->tno);
+        } catch (MiriadError &e) {
+            // An exception must not leave the deallocator
+            PyObject *et, *ev, *tb;
+            PyErr_Fetch(&et, &ev, &tb);
+            PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+            PyErr_WriteUnraisable(NULL);
+            PyErr_Restore(et, ev, tb);
+        }
+    }
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -33,6 +44,7 @@ static PyObject *UVObject_new(PyTypeObject *type,
         PyObject *args, PyObject *kwds) {
     UVObject *self;
     self = (UVObject *) type->tp_alloc(type, 0);
+    if (self != NULL) self->tno = -1;
     return (PyObject *) self;
 }
 
@@ -65,6 +77,10 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
         uvset_c(self->tno,"preamble","uvw/time/baseline",0,0.,0.,0.);
         uvset_c(self->tno,"corr",corrmode,0,0.,0.,0.);
     } catch (MiriadError &e) {
+        // Give back what was opened before the error
+        try {
+            if (self->tno != -1) uvdiscard_c(self->tno);
+        } catch (MiriadError &e2) {}
         self->tno = -1;
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return -1;
@@ -161,6 +177,9 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
         PyErr_Format(PyExc_ValueError,
             "data and flags must be 1 dimensional and have the same shape");
         return NULL;
+    } else if (DIM(data,0) == 0) {
+        PyErr_Format(PyExc_ValueError, "a record needs at least one channel");
+        return NULL;
     }
     CHK_ARRAY_TYPE(uvw, NPY_DOUBLE);
     CHK_ARRAY_TYPE(data, NPY_CFLOAT);
@@ -183,9 +202,6 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     } catch (MiriadError &e) {
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
-    } else if (DIM(data,0) == 0) {
-        PyErr_Format(PyExc_ValueError, "a record needs at least one channel");
-        return NULL;
     }
     Py_INCREF(Py_None);
     return Py_None;
@@ -753,7 +769,6 @@ MOD_INIT(_miriad) {
 
     Py_Initialize();
 
-    UVType.tp_new = PyType_GenericNew;
     if (PyType_Ready(&UVType) < 0)
         return MOD_ERROR_VAL;
 
-- 
2.43.0


From c4f9cbd9a2fa030363fd28e73d9140035acc0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:45 +0000
Subject: [PATCH 50/53] fix: clearing a selection clears all of it; offset
 selections combine with others; refused selections change nothing

---
 aipy/_miriad/mir/uvio.c | 71 ++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index e7902cf..d341508 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -395,27 +395,27 @@ typedef struct varhand{
 
 #include "maxdimc.h"
 
-#define SEL_VIS   1
-#define SEL_TIME  2
-#define SEL_UVN   3
-#define SEL_POINT 4
-#define SEL_DRA	  5
-#define SEL_DDEC  6
-#define SEL_INC	  7
-#define SEL_RA	  8
-#define SEL_DEC	  9
-#define SEL_POL  10
-#define SEL_ON   11
-#define SEL_SRC  12
-#define SEL_UV   13
-#define SEL_FREQ 14
-#define SEL_SHADOW 15
-#define SEL_BIN  16
-#define SEL_HA   17
-#define SEL_LST  18
-#define SEL_ELEV 19
-#define SEL_DAZIM 20
-#define SEL_DELEV 21
+#define SEL_VIS    1
+#define SEL_TIME   2
+#define SEL_UVN    3
+#define SEL_POINT  4
+#define SEL_DAZIM  5
+#define SEL_DELEV  6
+#define SEL_DRA    7
+#define SEL_DDEC   8
+#define SEL_INC    9
+#define SEL_RA     10
+#define SEL_DEC    11
+#define SEL_POL    12
+#define SEL_ON     13
+#define SEL_SRC    14
+#define SEL_UV     15
+#define SEL_FREQ   16
+#define SEL_SHADOW 17
+#define SEL_BIN    18
+#define SEL_HA     19
+#define SEL_LST    20
+#define SEL_ELEV   21
 
 typedef struct {
 	int type,discard;
@@ -2288,17 +2288,26 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
 
   discard = !datasel;
   uv->flags &= ~UVF_INIT;
+  uv->maxvis = 0;
 
   if(!strcmp(object,"clear")){
     uv_free_select(uv->select);
     uv->select = NULL;
+    uv->need_skyfreq = (uv->flags & UVF_WAVELENGTH) != 0;
+    uv->need_point = uv->need_pol   = uv->need_on  = FALSE;
+    uv->need_uvw   = uv->need_src   = uv->need_win = uv->need_bin = FALSE;
+    uv->need_dra   = uv->need_ddec  = uv->need_ra  = uv->need_dec = FALSE;
+    uv->need_lst   = uv->need_elev  = uv->need_obsra = FALSE;
+    uv->need_dazim = uv->need_delev = FALSE;
     return;
   }
 
 /* Ignore "and" and "or" objects if this is the first call. */
 
   sel = uv->select;
-  if(sel == NULL && (!strcmp(object,"or") || !strcmp(object,"and"))) return;
+  if((!strcmp(object,"or") || !strcmp(object,"and")) &&
+     (sel == NULL || (sel->fwd == NULL && sel->noper == 0 && !sel->selants &&
+      !sel->amp.select && !sel->win.select))) return;
 
 /* Either move to the last "SELECT" structure, or create the new structure. */
 
@@ -2462,11 +2471,11 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
 /* Window selection. */
 
   } else if(!strcmp(object,"window")){
+    i1 = p1 + 0.5;
+    if(i1 < 1 || i1 > MAXWIN) BUG('f',"Too many windows");
     if(!sel->win.select)
       for(i=0; i < MAXWIN; i++)sel->win.wins[i] = discard;
-    i = p1 + 0.5;
-    if(i < 1 || i > MAXWIN) BUG('f',"Too many windows");
-    sel->win.wins[i-1] = !discard;
+    sel->win.wins[i1-1] = !discard;
     uv->need_win = TRUE;
 
     sel->win.select = TRUE;
@@ -2489,14 +2498,14 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
 /* Antennae and baseline selection. */
 
   } else if(!strcmp(object,"antennae")){
-    if(!sel->selants){
-      for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = !discard;
-      sel->selants = TRUE;
-    }
     i1 = max(p1, p2) + 0.5;
     i2 = min(p1, p2) + 0.5;
     if(i1 < 0 || i1 > MAXANT) ERROR('f',(message,"bad antennae %d",i1));
     if(i2 < 0 || i2 > MAXANT) ERROR('f',(message,"bad antennae %d",i2));
+    if(!sel->selants){
+      for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = !discard;
+      sel->selants = TRUE;
+    }
     if(i1 == 0){
       for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = discard;
     } else if(i2 == 0){
@@ -3142,7 +3151,7 @@ private int uvread_select(UV *uv)
   double time,t0,uu,vv,uv2,uv2f,ra,dec,skyfreq,diameter;
   double *dazim, *delev;
   double lst,ha;
-  float elev;
+  double elev;
   SELECT *sel;
   OPERS *op;
   WINDOW *win;
@@ -3253,7 +3262,6 @@ private int uvread_select(UV *uv)
       if(!uv->need_dazim) dazim = 0;
       else dazim = (double *)uv->dazim->buf;
       while(n < sel->noper && op->type == SEL_DAZIM){
-	if (dazim==0) break;
 	for (i=0; i<nants; i++) {
 	  if(op->loval <= dazim[i] && dazim[i] <= op->hival) {
 	    discard = op->discard;
@@ -3274,7 +3282,6 @@ private int uvread_select(UV *uv)
       if(!uv->need_delev) delev = 0;
       else delev = (double *)uv->delev->buf;
       while(n < sel->noper && op->type == SEL_DELEV){
-	if (delev==0) break;
 	for (i=0; i<nants; i++) {
 	  if(op->loval <= delev[i] && delev[i] <= op->hival)
 	    discard = op->discard;
-- 
2.43.0


From f2e299e9eb41827ffc0cd161a076b90af6ded921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:45 +0000
Subject: [PATCH 51/53] fix: decimation counts integrations from the first one,
 and a step of zero is refused

---
 aipy/_miriad/miriad_wrap.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index d4e0d5e..f347b7f 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -117,7 +117,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
     PyArrayObject *data, *flags, *uvw;
     PyObject *rv;
     int nread, n2read, i, j;
-    double preamble[PREAMBLE_SIZE];
+    double preamble[PREAMBLE_SIZE] = {0};
     if (!PyArg_ParseTuple(args, "i", &n2read)) return NULL;
     // Make numpy arrays to hold the results
     npy_intp data_dims[1] = {n2read};
@@ -131,16 +131,16 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
             uvread_c(self->tno, preamble,
                      (float *)PyArray_DATA(data), (int *)PyArray_DATA(flags), n2read, &nread);
         } catch (MiriadError &e) {
+            Py_DECREF(data); Py_DECREF(flags);
             PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
             return NULL;
         }
-        if (preamble[3] != self->curtime) {
+        if (nread == 0) break;
+        if (self->intcnt == -1 || preamble[3] != self->curtime) {
             self->intcnt += 1;
             self->curtime = preamble[3];
         }
-        if ((self->intcnt-self->decphase) % self->decimate == 0 || nread==0) {
-            break;
-        }
+        if ((self->intcnt-self->decphase) % self->decimate == 0) break;
     }
     // Now we build a return value of ((uvw,t,(i,j)), data, flags, nread)
     npy_intp uvw_dims[1] = {3};
@@ -432,11 +432,19 @@ PyObject * UVObject_select(UVObject *self, PyObject *args) {
     int include;
     if (!PyArg_ParseTuple(args, "sddi", &name, &n1, &n2, &include)) return NULL;
     if (strncmp(name,"decimation",5) == 0) {
+        if (!(n1 >= 1 && n1 < 2147483648. && fabs(n2) < 2147483648.)) {
+            PyErr_Format(PyExc_ValueError, "decimation needs a step of 1 or more");
+            return NULL;
+        }
         self->decimate = (long) n1;
         self->decphase = (long) n2;
     } else {
         try {
             uvselect_c(self->tno, name, n1, n2, include);
+            if (strcmp(name,"clear") == 0) {
+                self->decimate = 1;
+                self->decphase = 0;
+            }
         } catch (MiriadError &e) {
             PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
             return NULL;
-- 
2.43.0


From 4b4d084bbebba90a1ecb6b3c4f817f6eabf5c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:18 +0000
Subject: [PATCH 52/53] fix: antenna selections find the records whose pair is
 in descending order

---
 aipy/_miriad/mir/uvio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index d341508..128f7b0 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3170,6 +3170,7 @@ private int uvread_select(UV *uv)
     if(sel->selants){
       bl = *((float *)(uv->bl->buf)) + 0.5;
       uvbasant_c(bl,&i1,&i2);
+      if(i1 > i2){ i = i1; i1 = i2; i2 = i; }
       if(i1 < 1 || i2 > MAXANT){
 	ERROR('w',(message,"Discarded data with bad antenna numbers when selecting: (%d,%d) baseline number is %d\n",i1,i2,bl));
 	discard = TRUE;
@@ -3233,6 +3234,7 @@ private int uvread_select(UV *uv)
     if(op->type == SEL_POINT){
       bl = *((float *)(uv->bl->buf)) + 0.5;
       uvbasant_c(bl,&i1,&i2);
+      if(i1 > i2){ i = i1; i1 = i2; i2 = i; }
       discard = !op->discard;
       point = (float *)(uv->axisrms->buf);
       nants = VARLEN(uv->axisrms)/2;
-- 
2.43.0


From 9c1714be7255b887fc86ced60dace858dac6825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 53/53] fix: copies of a data set: variables without a value
 yet, data sets without history, several copies of one data set

---
 aipy/_miriad/mir/miriad.h    |  1 +
 aipy/_miriad/mir/uvio.c      | 27 +++++++++++++++++++++++++--
 aipy/_miriad/miriad_wrap.cpp |  3 ++-
 aipy/miriad.py               | 20 ++++++++++++++++++--
 4 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index 469d491..5e9d7da 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -224,6 +224,7 @@ void uvwwrite_c (int tno, Const float *data, Const int *flags, int n);
 void uvsela_c   (int tno, Const char *object, Const char *string, int datasel);
 void uvselect_c (int tno, Const char *object, double p1, double p2, int datasel);
 void uvset_c    (int tno, Const char *object, Const char *type, int n, double p1, double p2, double p3);
+void uvskip_c   (int tno);
 void uvread_c   (int tno, double *preamble, float *data, int *flags, int n, int *nread);
 void uvwread_c  (int tno, float *data, int *flags, int n, int *nread);
 void uvflgwr_c  (int tno, Const int *flags);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 128f7b0..4020301 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -290,6 +290,8 @@
 #define UVF_UPDATED_UVW 0x4000	/* Set if things needed for uvw have changed. */
 #define UVF_REDO_UVW	0x8000	/* Set if u-v-w are to be recomputed. */
 #define UVF_DOW		0x10000	/* Set if the caller wants w returned. */
+#define UVF_SKIPPED	0x20000 /* Set if the last record is to be passed over: changes
+				   of variables add up to the next one. */
 
 #define UV_ALIGN	8
 #define UV_HDR_SIZE	4
@@ -1354,6 +1356,7 @@ void uvrewind_c(int tno)
     BUG('f',"File is not opened for reading, in UVREWIND");
 
   uv->callno = uv->mark = 0;
+  uv->flags &= ~UVF_SKIPPED;
   for(i=0, v = uv->variable; i < uv->nvar; i++, v++) 
     v->callno = ( (v->flags & UVF_OVERRIDE) ? 1 : 0);
   for(vh = uv->vhans; vh != NULL; vh = vh->fwd) vh->callno = 0;
@@ -1392,6 +1395,22 @@ void uvcopyvr_c(int tin,int tout)
   }
 }
 /************************************************************************/
+void uvskip_c(int tno)
+/**uvskip -- Pass over the record that was read last.			*/
+/*&rjs                                                                  */
+/*:uv-i/o								*/
+/*+
+  This tells that the record of the last call to uvread is not used. The
+  variables that changed with it are changed as of the next record.
+
+  Input:
+    tno		File handle of the input uv data set.			*/
+/*--									*/
+/*----------------------------------------------------------------------*/
+{
+  uvs[tno]->flags |= UVF_SKIPPED;
+}
+/************************************************************************/
 int uvupdate_c(int tno)
 /**uvupdate -- Check whether any "important" variables have changed.	*/
 /*&rjs                                                                  */
@@ -1835,6 +1854,7 @@ void uvtrack_c(int tno,Const char *name,Const char *switches)
 	      uv->flags |= UVF_UPDATED;				break;
     case 'c': v->flags |= UVF_COPY;
 	      uv->flags |= UVF_COPY;				break;
+    case 'n': v->flags &= ~UVF_COPY;				break;
     case ' ':							break;
     default:
       ERROR('w',(message,"Unrecognised switch %c, in UVTRACK",*(switches-1)));
@@ -2842,8 +2862,11 @@ void uvread_c(int tno,double *preamble,float *data,int *flags,int n,int *nread)
 
   *nread = 0;
   more = TRUE;
-  uv->mark = uv->callno + 1;
-  uv->flags &= ~(UVF_UPDATED | UVF_COPY);
+  if(!(uv->flags & UVF_SKIPPED)){
+    uv->mark = uv->callno + 1;
+    uv->flags &= ~(UVF_UPDATED | UVF_COPY);
+  }
+  uv->flags &= ~UVF_SKIPPED;
 
 /* Scan the input data stream, and do any selection necessary. */
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index f347b7f..34af00c 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -141,6 +141,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
             self->curtime = preamble[3];
         }
         if ((self->intcnt-self->decphase) % self->decimate == 0) break;
+        uvskip_c(self->tno);
     }
     // Now we build a return value of ((uvw,t,(i,j)), data, flags, nread)
     npy_intp uvw_dims[1] = {3};
@@ -702,7 +703,7 @@ static PyMethodDef UVObject_methods[] = {
     {"copyvr", (PyCFunction)UVObject_copyvr, METH_VARARGS,
         "copyvr(uv)\nCopy any variables which changed during the last read into the provided uv interface."},
     {"trackvr", (PyCFunction)UVObject_trackvr, METH_VARARGS,
-        "trackvr(name,code)\nIf code=='c', set variable to be copied by copyvr()."},
+        "trackvr(name,code)\nIf code=='c', set variable to be copied by copyvr().  If code=='n', set it not to be."},
     {"_rdvr", (PyCFunction)UVObject_rdvr, METH_VARARGS,
         "_rdvr(name,type)\nReturn the current value of a variable of the provided Miriad type (a,j,i,r,d,c).  If variable has multiple values, an array (or string if pertinent) will be returned."},
     {"_wrvr", (PyCFunction)UVObject_wrvr, METH_VARARGS,
diff --git a/aipy/miriad.py b/aipy/miriad.py
index d846532..2c462bc 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -77,6 +77,7 @@ class UV(_miriad.UV):
         assert(corrmode in ['r', 'j'])
         _miriad.UV.__init__(self, filename, status, corrmode)
         self.status = status
+        self._tracked, self._held = set(), set()
         self.nchan = _miriad.MAXCHAN
         if status == 'old':
             self.vartable = self._gen_vartable()
@@ -266,15 +267,30 @@ class UV(_miriad.UV):
                 self._wrvr(k, uv.vartable[k], override[k])
             else:
                 self.vartable[k] = uv.vartable[k]
-                self._wrvr(k, uv.vartable[k], uv[k])
+                # A variable may have no value before a later record
+                try: self._wrvr(k, uv.vartable[k], uv[k])
+                except(RuntimeError): pass
                 uv.trackvr(k, 'c') # Set to copy when copyvr() called
+                uv._tracked.add(k)
+        self._held = set(override) | set(exclude)
+    def copyvr(self, uv):
+        """Copy any variables which changed during the last read of uv,
+        except for those overridden or excluded in init_from_uv()."""
+        # They may be tracked for other data sets initialized from uv
+        held = self._held & uv._tracked
+        for k in held: uv.trackvr(k, 'n')
+        try: _miriad.UV.copyvr(self, uv)
+        finally:
+            for k in held: uv.trackvr(k, 'c')
     def pipe(self, uv, mfunc=echo, append2hist='', raw=False):
         """Pipe in data from another UV through the function
         mfunc(uv,preamble,data), which should return (preamble,data).  If
         mfunc is not provided, the dataset will just be cloned, and if the
         returned data is None, it will be omitted.  The string 'append2hist'
         will be appended to history."""
-        self._wrhd('history', self['history'] + append2hist)
+        try: history = self['history']
+        except(IOError): history = ''
+        self._wrhd('history', history + append2hist)
         # Pipe all data through mfunc
         if raw:
             for p,d,f in uv.all(raw=raw):
-- 
2.43.0

