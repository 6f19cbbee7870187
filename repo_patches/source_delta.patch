From 01f490f664fed4114b0e17c808e20921a5dbe9ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 01/22] fix: do not modify coordinate and sigma arguments in
 place

tpnorm, AngularMixin.vxy2xyz, Mapper.vxy2xyz and
non_uniform_gaussian_filter changed arrays owned by the caller
---
 raytools/mapper/angularmixin.py | 3 +--
 raytools/mapper/mapper.py       | 1 +
 raytools/translate.py           | 7 +++----
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index de6c559..2cd86f8 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -68,8 +68,7 @@ class AngularMixin(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
-        pxy = np.atleast_2d(xy)
-        pxy -= .5
+        pxy = np.atleast_2d(xy) - .5
         pxy *= (np.array([self._xsign, 1]) *
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index fecf9e0..bfbd8f6 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -132,6 +132,7 @@ class Mapper(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
+        xy = np.array(xy)
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
diff --git a/raytools/translate.py b/raytools/translate.py
index 4acecee..53c7899 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -232,9 +232,8 @@ def xyz2xy(xyz, axes=(0, 1, 2), flip=False):
 def tpnorm(thetaphi):
     """normalize angular vector to 0-pi, 0-2pi"""
     thetaphi = np.atleast_2d(thetaphi)
-    thetaphi[:, 0] = np.mod(thetaphi[:, 0] + np.pi, np.pi)
-    thetaphi[:, 1] = np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)
-    return thetaphi
+    return np.stack((np.mod(thetaphi[:, 0] + np.pi, np.pi),
+                     np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)), -1)
 
 
 def tp2xyz(thetaphi, normalize=True):
@@ -543,7 +542,7 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         inv_sort = None
     if sigma is None:
         sigma = np.sqrt(np.cov(x) * len(x) ** (-.4))
-    sigma *= sscale
+    sigma = sigma * sscale
     if bw is None and xr is None:  # no bandwidth and self
         nugf = _nugf_i
         idxs = np.arange(x.size)
-- 
2.43.0


From 92bf88743fa848a314e47206e95e72d85818f324 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 02/22] fix: correct each stray ray's solid angle on a copy of
 omega

the edge-of-view correction wrote the last ray's solid angle to every
stray ray, and into the array owned by the caller
---
 raytools/evaluate/basemetricset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index bbda4a9..138875f 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -91,14 +91,15 @@ class BaseMetricSet(object):
                 a = self.vm.viewangle * np.pi / 360
                 a2 = np.square(a)
                 b2s = ost/np.pi
+                omega = np.copy(omega)
                 for s, b2, vst, d in zip(stray, b2s, vsts, ds):
                     b = np.sqrt(b2)
                     if a - b < d < a + b:
                         x = (a2 - b2 + np.square(d)) / (2 * d)
                         x2 = np.square(x)
                         y = np.sqrt(a2 - x2)
-                        omega[stray] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
-                                        y * (x + np.sqrt(b2 - a2 + x2)))
+                        omega[s] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
+                                    y * (x + np.sqrt(b2 - a2 + x2)))
                         up = np.cross(vst, self.vm.dxyz)
                         r = d - x
                         ymtx, pmtx = translate.rmtx_yp(up)
-- 
2.43.0


From 1a4769f8a29ea5712715eab39a45eb3eb01bf979 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 03/22] fix: uv2xy and uv2xyz left numpy error handling
 disabled

---
 raytools/translate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 53c7899..e92a387 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -37,7 +37,6 @@ def uv2xy(uv):
     -map.html.
     """
     uv = np.atleast_2d(uv)
-    np.seterr(all="ignore")
     xy = np.empty((uv.shape[0], 2), float)
     u = uv[:, 0]
     v = uv[:, 1]
@@ -47,7 +46,8 @@ def uv2xy(uv):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
     xy[:, 0] = n*np.cos(phi)*r
     xy[:, 1] = np.sin(phi)*r
     return xy
@@ -58,7 +58,6 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     http://psgraphics.blogspot.com/2011/01/improved-code-for-concentric
     -map.html.
     """
-    np.seterr(all="ignore")
     uv = np.atleast_2d(uv)
     xyz = np.empty((uv.shape[0], 3), float)
     u = uv[:, 0]
@@ -71,7 +70,8 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
     sphterm = r*np.sqrt(2 - r*r)
     # flip back x in positive z space
     xyz[:, axes[0]] = xsign*n*np.cos(phi)*sphterm
-- 
2.43.0


From 647bb82127e0f32b5dc76b856bc46cb36c4c5456 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 04/22] fix: is_hdr compared decoded text to bytes and was
 never true

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index e5f3292..b48cd7b 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -296,7 +296,7 @@ def clean_header(header):
 
 
 def is_hdr(imgf):
-    f = open(imgf)
+    f = open(imgf, 'rb')
     ishdr = f.read(10) == b'#?RADIANCE'
     f.close()
     return ishdr
-- 
2.43.0


From 70ed6088037cb67a8fa917de01ce8e2d489a4584 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 05/22] fix: jittered pixels had an offset of the wrong shape

---
 raytools/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index bfbd8f6..78f0612 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -151,7 +151,7 @@ class Mapper(object):
         xres, yres = self.framesize(res)
         if jitter > 0:
             rng = ((1 - jitter)/2, (1 + jitter)/2)
-            offset = np.random.default_rng().uniform(*rng, (xres, yres)).T
+            offset = np.random.default_rng().uniform(*rng, (xres, yres, 2))
         else:
             offset = 0.5
         return np.stack(np.mgrid[0:xres, 0:yres], 2) + offset
-- 
2.43.0


From f8b70a9e98c7be9c7877f0a3a41370c0cca4d140 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 06/22] fix: array_rotate interpolated half a pixel off the
 pixel centres

---
 raytools/imagetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 65afb52..1c748e2 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -120,7 +120,7 @@ def array_rotate(imarray, ang, center=None, rotate_first=True, fill_value=None,
             pxyz = vm2.view2world(vm.world2view(pxyz))
 
     pxy = vm.ray2pixel(pxyz, res, integer=False)
-    x = np.arange(res)
+    x = np.arange(res) + .5
     if nearest:
         method = "nearest"
     else:
-- 
2.43.0


From a8e3df54d49a2457ad4ab2af99459e2133e5241a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 07/22] fix: pass file names and header lines to Radiance
 programs verbatim

names with spaces, quotes or pipe characters were split or interpreted
and header lines with an apostrophe raised an error
---
 raytools/imagetools.py | 17 ++++++++---------
 raytools/io.py         | 20 +++++++++++++-------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 1c748e2..f05dcc3 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -8,9 +8,9 @@
 # =======================================================================
 
 """functions for translating from mappers to hdr"""
-import numpy as np
-import clasp.script_tools as cst
+from subprocess import Popen, PIPE
 
+import numpy as np
 
 from raytools import translate, io
 from raytools.evaluate import MetricSet, ColorMetricSet, retina
@@ -219,10 +219,12 @@ def vf_to_vm(view):
 
 
 def img_size(imgf):
-    hd = cst.pipeline([f"getinfo -d {imgf}"]).strip().split()
+    p = Popen(["getinfo", "-d", imgf], stdout=PIPE)
+    # discard file name, which may contain spaces
+    hd = p.communicate()[0].decode("utf-8").rsplit(":", 1)[-1].split()
     x = 1
     y = 1
-    for i in range(2, len(hd)):
+    for i in range(1, len(hd)):
         if 'X' in hd[i - 1]:
             x = int(hd[i])
         elif 'Y' in hd[i - 1]:
@@ -232,11 +234,8 @@ def img_size(imgf):
 
 def hdr2vm(imgf, vpt=False):
     """hdr to ViewMapper"""
-    header, err = cst.pipeline([f"getinfo {imgf}"], caperr=True)
-    try:
-        err = err.decode("utf-8")
-    except AttributeError:
-        pass
+    p = Popen(["getinfo", imgf], stdout=PIPE, stderr=PIPE)
+    header, err = [i.decode("utf-8") for i in p.communicate()]
     if "bad header!" in err:
         raise IOError(f"{err} - wrong file type?")
     elif "cannot open" in header:
diff --git a/raytools/io.py b/raytools/io.py
index b48cd7b..3d6c04b 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -9,7 +9,6 @@
 
 """functions for reading and writing"""
 import re
-import shlex
 import os
 import sys
 import textwrap
@@ -144,8 +143,7 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
     if header is not None:
         if clean:
             header = clean_header(header)
-        hdr = "' '".join(header)
-        getinfo = shlex.split(f"getinfo -a '{hdr}'")
+        getinfo = ["getinfo", "-a"] + (list(header) or [""])
         p = Popen(pval.split(), stdin=PIPE, stdout=PIPE)
         q = Popen(getinfo, stdin=p.stdout, stdout=f)
     else:
@@ -203,8 +201,16 @@ def carray2hdr(ar, imgf, header=None, clean=False):
     return _array2hdr(ar.T[::-1], imgf, header, pval, clean=clean)
 
 
+def _file_arg(imgf):
+    """file path as (verbatim) command argument, empty to read from stdin"""
+    if imgf == "":
+        return []
+    return [imgf]
+
+
 def _hdr_in(pval, imgf, stdin):
-    p = Popen(shlex.split(pval), stdin=stdin, stdout=PIPE, stderr=PIPE)
+    p = Popen(pval.split() + _file_arg(imgf), stdin=stdin, stdout=PIPE,
+              stderr=PIPE)
     shape = p.stdout.readline().strip().split()
     try:
         shape = (int(shape[-3]), int(shape[-1]))
@@ -238,7 +244,7 @@ def hdr2array(imgf, stdin=None, header=False, vlambda=None):
         imgd = hdr2carray(imgf, stdin)
         imgd = np.einsum("ijk,i->jk", imgd, vlambda)
     else:
-        pval = f'pvalue -b -h -df -o {imgf}'
+        pval = 'pvalue -b -h -df -o'
         imgd = bytes2np(*_hdr_in(pval, imgf, stdin)).T[:, ::-1]
     if header:
         return imgd, hdr_header(imgf)
@@ -258,7 +264,7 @@ def hdr2carray(imgf, stdin=None, header=False):
     -------
     ar: np.array
     """
-    pval = f'pvalue -n -h -df -o {imgf}'
+    pval = 'pvalue -n -h -df -o'
     data, shape = _hdr_in(pval, imgf, stdin)
     shape = (3, *shape)
     imgd = np.transpose(bytes2np(data, shape)[:, ::-1], (0, 2, 1))
@@ -303,7 +309,7 @@ def is_hdr(imgf):
 
 
 def hdr_header(imgf, clean=False, items=None):
-    p = Popen(shlex.split(f"getinfo {imgf}"), stdout=PIPE,
+    p = Popen(["getinfo"] + _file_arg(imgf), stdout=PIPE,
               stderr=PIPE).communicate()
     err = p[1]
     try:
-- 
2.43.0


From 15c843a4515d92c46d6f6b1e5646733344295be4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 08/22] fix: report pvalue's message for unreadable and
 truncated images

---
 raytools/io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 3d6c04b..b0561c3 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -215,15 +215,21 @@ def _hdr_in(pval, imgf, stdin):
     try:
         shape = (int(shape[-3]), int(shape[-1]))
     except IndexError:
+        msg = p.communicate()[1].decode("utf-8", "replace")
         if imgf == "":
             imgf = "-"
         if os.path.isfile(imgf):
             raise ValueError(f"Bad HDR file '{imgf}',\n"
-                             f"pvalue msg: {p.stderr}")
+                             f"pvalue msg: {msg}")
         else:
             raise ValueError(f"HDR image file '{imgf}' not found,\n"
-                             f"pvalue msg: {p.stderr}")
-    return p.stdout.read(), shape
+                             f"pvalue msg: {msg}")
+    data = p.stdout.read()
+    msg = p.communicate()[1]
+    if p.returncode != 0:
+        raise ValueError(f"Bad HDR file '{imgf}',\n"
+                         f"pvalue msg: {msg.decode('utf-8', 'replace')}")
+    return data, shape
 
 
 def hdr2array(imgf, stdin=None, header=False, vlambda=None):
-- 
2.43.0


From 04ada1b2457d7c405460652f9a10b6a289ad79ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 09/22] fix: default view and luminance coefficients for images
 without them

hdr2vol and GSS failed for images without a view, imgmetric for color
metrics of images without luminance coefficients
---
 raytools/evaluate/hvsgsm.py | 6 +++---
 raytools/imagetools.py      | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index a7e4818..6eff8d7 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -412,15 +412,15 @@ class GSS:
 
     @vm.setter
     def vm(self, view):
-        if isinstance(view, ViewMapper):
+        if view is None or isinstance(view, ViewMapper):
             vm = view
         else:
             try:
                 vm = itl.hdr2vm(view)
             except ValueError:
                 vm = None
-            if vm is None:
-                vm = ViewMapper(viewangle=180)
+        if vm is None:
+            vm = ViewMapper(viewangle=180)
         self._vm = vm
 
     # Step 3
diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index f05dcc3..d5e9d0f 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -201,6 +201,8 @@ def hdr2vol(imgf, vm=None, color=False, vlambda=None):
         ar = io.hdr2array(imgf, vlambda=vlambda)
     if vm is None:
         vm = hdr2vm(imgf)
+    if vm is None:
+        vm = ViewMapper(viewangle=180)
     vecs = vm.pixelrays(ar.shape[-1]).reshape(-1, 3)
     oga = vm.pixel2omega(vm.pixels(ar.shape[-1]), ar.shape[-1]).ravel()
     return vecs, oga, np.squeeze(ar.reshape(-1, ar.shape[-1]*ar.shape[-2])).T
@@ -468,6 +470,10 @@ def imgmetric(imgf, metrics, peakn=False, scale=179, lumrgb=None, threshold=2000
         else:
             if not needscolor and np.allclose((0.26507413, 0.67011463, 0.06481124), lumrgb, atol=.001):
                 lumrgb = None
+    if needscolor:
+        if lumrgb is None:
+            lumrgb = (0.265, 0.670, 0.065)
+        peakwargs['vlambda'] = lumrgb
     v, o, l = hdr2vol(imgf, vm, needscolor, vlambda=lumrgb)
     if peakn:
         v, o, l = normalize_peak(v, o, l, scale, **peakwargs)
-- 
2.43.0


From 9ef013d3a148d48b51c3794d0e2152906812d732 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 10/22] fix: setting a view on GSS kept arrays derived from the
 previous view

---
 raytools/evaluate/hvsgsm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 6eff8d7..33ebda8 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -422,6 +422,9 @@ class GSS:
         if vm is None:
             vm = ViewMapper(viewangle=180)
         self._vm = vm
+        # arrays derived from the previous view are not valid anymore
+        self._res = 0
+        self._lum = None
 
     # Step 3
     def pupil(self, ev):
-- 
2.43.0


From 186b07bad365a64a6e9e0ad787362dcfa127ee28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 11/22] fix: Mapper.framesize did not follow changes of aspect

---
 raytools/mapper/mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 78f0612..104a3e4 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -6,8 +6,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
-import functools
-
 import numpy as np
 from scipy.ndimage import uniform_filter
 
@@ -136,7 +134,6 @@ class Mapper(object):
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-    @functools.lru_cache(1)
     def framesize(self, res):
         if self.aspect < 1:
             yres = res
-- 
2.43.0


From 85b6480eb53112bdd1ca9bafeeda3236e279aa24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 12/22] fix: hdr_rotate without rotation or center overwrote
 its input

---
 raytools/imagetools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index d5e9d0f..dec9e8e 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -184,6 +184,8 @@ def hdr_rotate(imgf, outf=None, rotate=0.0, center=None, rotate_first=True,
         cl += f"_{center[0]}-{center[1]}"
     if (not rotate_first) and rotate != 0:
         cl += f"_r{int(rotate):02d}"
+    if cl == "":
+        cl = "_r00"
     if outf is None and not stdout:
         outf = imgf.rsplit(".", 1)[0] + f"{cl}.hdr"
     imarray, header = io.hdr2carray(imgf, header=True)
-- 
2.43.0


From d7505cb44042d898ea4fdfad74f3236264965545 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 13/22] fix: non_uniform_gaussian_filter did not restore the
 input order

---
 raytools/translate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index e92a387..2410923 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -557,8 +557,8 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         idxs = xr
     amu = np.apply_along_axis(nugf, 0, np.reshape(idxs, (1, -1)), x, y, sigma)
     # sort back unless already sorted or resampled
-    if inv_sort is not None and resample is None:
-        amu = amu[inv_sort]
+    if inv_sort is not None and xr is None:
+        amu = amu[..., inv_sort]
     return amu
 
 
-- 
2.43.0


From 709eddc02a9540d7bf395640b54b1933b039e602 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 14/22] fix: xyz2aa returned azimuths up to 270 instead of
 (-180, 180)

---
 raytools/translate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 2410923..59e9763 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -272,7 +272,10 @@ def xyz2aa(xyz):
     xyz = np.atleast_2d(xyz)
     tp = xyz2tp(xyz)
     tp[:, 1] -= np.pi
-    return (np.pi/2 - tp)/(np.pi/180)
+    aa = (np.pi/2 - tp)/(np.pi/180)
+    # azimuth to (-180, 180)
+    aa[:, 1] = np.mod(aa[:, 1] + 180, 360) - 180
+    return aa
 
 
 def chord2theta(c):
-- 
2.43.0


From dddb79f4d980d68a82a222ea0155c3c0916bc381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:36 +0000
Subject: [PATCH 15/22] fix: img_size reported 1x1 for files that cannot be
 read

---
 raytools/imagetools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index dec9e8e..265d8ae 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -226,13 +226,15 @@ def img_size(imgf):
     p = Popen(["getinfo", "-d", imgf], stdout=PIPE)
     # discard file name, which may contain spaces
     hd = p.communicate()[0].decode("utf-8").rsplit(":", 1)[-1].split()
-    x = 1
-    y = 1
+    x = None
+    y = None
     for i in range(1, len(hd)):
         if 'X' in hd[i - 1]:
             x = int(hd[i])
         elif 'Y' in hd[i - 1]:
             y = int(hd[i])
+    if x is None or y is None:
+        raise IOError(f"no image size found in '{imgf}'")
     return x, y
 
 
-- 
2.43.0


From 0fc9441f60f226036e4d50f3d78a9694c8ba6ab3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:27:13 +0000
Subject: [PATCH 16/22] fix: the view header of a downward view had its up
 vector parallel to the view direction

---
 raytools/mapper/angularmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 2cd86f8..14daa39 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -118,7 +118,7 @@ class AngularMixin(object):
             return mask
 
     def header(self, pt=(0, 0, 0), viewproj='vta', **kwargs):
-        if np.allclose(self.dxyz, (0, 0, 1)):
+        if np.allclose(np.abs(self.dxyz), (0, 0, 1)):
             vup = "0 1 0"
         else:
             vup = "0 0 1"
-- 
2.43.0


From d7df6560d159d2e0133769199b44ddd6601a57b9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 17/22] fix: smooth passed an absolute kernel width as a factor
 to gaussian_kde

---
 raytools/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/cli.py b/raytools/cli.py
index 9ee7c21..fe9fc0c 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -271,7 +271,8 @@ def smooth(ctx, dataf, x=0, x_out=(1000.0,), y=(-1,), sigma=None, sf=1.0,
     sigma *= sf
     bw = None
     if dy.size == 0:
-        k = stats.gaussian_kde(dx, bw_method=sigma)
+        # gaussian_kde takes the bandwidth as a factor of the standard deviation
+        k = stats.gaussian_kde(dx, bw_method=sigma / np.std(dx, ddof=1))
         y_out = k(x_out)[None]
     else:
         y_out = translate.non_uniform_gaussian_filter(dx, dy, x_out,
-- 
2.43.0


From dfa3eb0fdcfa32fd9864d2acd30656e0ec2345c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:14 +0000
Subject: [PATCH 18/22] fix: resample truncated reduction factors whose
 reciprocal rounds below a whole number

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 59e9763..1f78ded 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -385,7 +385,7 @@ def resample(samps, ts=None, gauss=True, radius=None):
                 radius = tuple(rs - 1)
             samps = gaussian_filter(samps, radius)
     elif np.prod(rs) < 1:
-        rs = (1/rs).astype(int)
+        rs = np.rint(1/rs).astype(int)
         og = (-rs/2).astype(int)
         samps = uniform_filter(samps, rs, origin=og)
         for i, j in enumerate(rs):
-- 
2.43.0


From abd13147e97ea3df168b0a1a64b5eff54c58d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:55 +0000
Subject: [PATCH 19/22] fix: hdr2vol left the second half of 360 degree images
 without solid angles

---
 raytools/imagetools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 265d8ae..f0be8c8 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -207,6 +207,8 @@ def hdr2vol(imgf, vm=None, color=False, vlambda=None):
         vm = ViewMapper(viewangle=180)
     vecs = vm.pixelrays(ar.shape[-1]).reshape(-1, 3)
     oga = vm.pixel2omega(vm.pixels(ar.shape[-1]), ar.shape[-1]).ravel()
+    # pixels covers one half of a 360 degree view, pixelrays both
+    oga = np.tile(oga, len(vecs)//len(oga))
     return vecs, oga, np.squeeze(ar.reshape(-1, ar.shape[-1]*ar.shape[-2])).T
 
 
-- 
2.43.0


From 7c157d87e4062482a467c8fb0abd3706956c0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:52 +0000
Subject: [PATCH 20/22] fix: quantile smoothing of several features applied the
 weights to the flattened features

---
 raytools/translate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raytools/translate.py b/raytools/translate.py
index 1f78ded..89c9cbd 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -535,6 +535,11 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         return _nugf_x(xp[i], xp[i2[0]:i2[1]], yp[:, i2[0]:i2[1]], sp)
 
     y = np.atleast_2d(y)
+    # weights apply to one feature at a time
+    if afunc is not np.average and len(y) > 1:
+        return np.stack([np.ravel(non_uniform_gaussian_filter(
+            x, i, xr, sigma=sigma, sscale=sscale, bw=bw, amethod=amethod))
+            for i in y])
     # sort data if necessary
     if not np.all(x[:-1] <= x[1:]):
         sorti = np.argsort(x, kind='stable')
-- 
2.43.0


From 8a77677cf04b19384718d758f059495311213f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:31 +0000
Subject: [PATCH 21/22] fix: interpolate several features between samples out
 of reach of the kernel

the coordinate is an array of one element, which made the weights two
dimensional: np.average rejected them for more than one feature
---
 raytools/translate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 89c9cbd..6d5f204 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -512,7 +512,8 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
                 mu = yp[:, 0]
             else:
                 mu = np.average((yp[:, mui], yp[:, mui-1]), axis=0,
-                                weights=(x0-xp[mui-1], xp[mui]-x0))
+                                weights=np.ravel((x0-xp[mui-1],
+                                                  xp[mui]-x0)))
             if 'q' in akwargs:
                 mu = np.full(len(akwargs['q']), mu)
         return mu
-- 
2.43.0


From 47cddbbb5e05253f25448e3387f20fd04706439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:31 +0000
Subject: [PATCH 22/22] fix: azimuth of directions close to -z

the relative tolerance of np.isclose made it 3e-5 rad around -z instead of
the 1e-10 asked for, and the azimuth was lost there
---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 6d5f204..d080f38 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -254,7 +254,7 @@ def xyz2tp(xyz):
     xyz = np.atleast_2d(xyz)
     theta = np.arccos(xyz[:, 2])
     phi = np.where(np.isclose(theta, 0.0, atol=1e-10), np.pi,
-                   np.where(np.isclose(theta, np.pi, atol=1e-10),
+                   np.where(np.isclose(theta, np.pi, rtol=0, atol=1e-10),
                             np.pi, np.arctan2(xyz[:, 1], xyz[:, 0])))
     return tpnorm(np.column_stack([theta, phi]))
 
-- 
2.43.0

