From be418b4db41bd497ca4daae3f9b70175275ed48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 01/25] fix: array2hdr/carray2hdr raise when an image cannot be
 written

The exit status of pvalue and getinfo was ignored, and both tools exit 0 when
the disk is full, so a truncated or empty file was reported as written. Header
lines holding an apostrophe could not be written at all and left an empty file
behind. Collect and check the output of the tools before writing it.
---
 raytools/io.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index e5f3292..2bae436 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -13,7 +13,7 @@ import shlex
 import os
 import sys
 import textwrap
-from subprocess import Popen, PIPE
+from subprocess import Popen, PIPE, run
 
 import numpy as np
 
@@ -119,6 +119,19 @@ def bytefile2np(f, shape, dtype='<f'):
     return bytes2np(f.read(), shape, dtype)
 
 
+def call_tool(cmd, data=None, stdin=None):
+    """run command (list of arguments) feeding data to stdin and return stdout,
+    raises an IOError if the command does not succeed"""
+    if data is None:
+        p = run(cmd, stdin=stdin, stdout=PIPE, stderr=PIPE)
+    else:
+        p = run(cmd, input=data, stdout=PIPE, stderr=PIPE)
+    if p.returncode != 0:
+        err = p.stderr.decode("utf-8", "replace").strip()
+        raise IOError(f"{cmd[0]} failed (exit status {p.returncode}): {err}")
+    return p.stdout
+
+
 def _array2hdr(ar, imgf, header, pval, clean=False):
     """write 2d np.array to hdr image format
 
@@ -137,27 +150,15 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
         -------
         imgf
         """
-    if imgf is None:
-        f = None
-    else:
-        f = open(imgf, 'wb')
+    img = call_tool(pval.split(), np2bytes(ar))
     if header is not None:
         if clean:
             header = clean_header(header)
-        hdr = "' '".join(header)
-        getinfo = shlex.split(f"getinfo -a '{hdr}'")
-        p = Popen(pval.split(), stdin=PIPE, stdout=PIPE)
-        q = Popen(getinfo, stdin=p.stdout, stdout=f)
-    else:
-        p = Popen(pval.split(), stdin=PIPE, stdout=f)
-        q = p
-    p.stdin.write(np2bytes(ar))
-    p.stdin.flush()
-    q.communicate()
-    try:
-        f.close()
-    except AttributeError:
-        pass
+        img = call_tool(["getinfo", "-a", *(header or [""])], img)
+    # no file path: write to (inherited) stdout
+    with open(1 if imgf is None else imgf, 'wb',
+              closefd=imgf is not None) as f:
+        f.write(img)
     return imgf
 
 
-- 
2.43.0


From 3705622cce6e2d7b77728a148ba583711386acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 02/25] fix: hdr2array/hdr2carray check the reader process and
 drain its output

pvalue's stderr pipe was never read (a chatty pvalue blocks forever), its exit
status was ignored, the child was never reaped, and a path holding a space or
a quote could not be read.
---
 raytools/io.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 2bae436..babce1d 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -205,20 +205,23 @@ def carray2hdr(ar, imgf, header=None, clean=False):
 
 
 def _hdr_in(pval, imgf, stdin):
-    p = Popen(shlex.split(pval), stdin=stdin, stdout=PIPE, stderr=PIPE)
-    shape = p.stdout.readline().strip().split()
-    try:
-        shape = (int(shape[-3]), int(shape[-1]))
-    except IndexError:
+    cmd = pval.split()
+    if imgf != "":
+        cmd.append(imgf)
+    p = run(cmd, stdin=stdin, stdout=PIPE, stderr=PIPE)
+    res, _, data = p.stdout.partition(b"\n")
+    shape = res.split()
+    if p.returncode != 0 or len(shape) < 4:
+        msg = p.stderr.decode("utf-8", "replace")
         if imgf == "":
             imgf = "-"
         if os.path.isfile(imgf):
             raise ValueError(f"Bad HDR file '{imgf}',\n"
-                             f"pvalue msg: {p.stderr}")
+                             f"pvalue msg: {msg}")
         else:
             raise ValueError(f"HDR image file '{imgf}' not found,\n"
-                             f"pvalue msg: {p.stderr}")
-    return p.stdout.read(), shape
+                             f"pvalue msg: {msg}")
+    return data, (int(shape[-3]), int(shape[-1]))
 
 
 def hdr2array(imgf, stdin=None, header=False, vlambda=None):
@@ -239,7 +242,7 @@ def hdr2array(imgf, stdin=None, header=False, vlambda=None):
         imgd = hdr2carray(imgf, stdin)
         imgd = np.einsum("ijk,i->jk", imgd, vlambda)
     else:
-        pval = f'pvalue -b -h -df -o {imgf}'
+        pval = 'pvalue -b -h -df -o'
         imgd = bytes2np(*_hdr_in(pval, imgf, stdin)).T[:, ::-1]
     if header:
         return imgd, hdr_header(imgf)
@@ -259,7 +262,7 @@ def hdr2carray(imgf, stdin=None, header=False):
     -------
     ar: np.array
     """
-    pval = f'pvalue -n -h -df -o {imgf}'
+    pval = 'pvalue -n -h -df -o'
     data, shape = _hdr_in(pval, imgf, stdin)
     shape = (3, *shape)
     imgd = np.transpose(bytes2np(data, shape)[:, ::-1], (0, 2, 1))
-- 
2.43.0


From 262739e0123aba9e77cbdf520b92b8e473fe39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 03/25] fix: hdr_header raises when getinfo does not finish

A getinfo that was killed or failed for any reason other than a bad header left
a partial header that was returned as if it were complete.
---
 raytools/io.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index babce1d..d190024 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -307,17 +307,12 @@ def is_hdr(imgf):
 
 
 def hdr_header(imgf, clean=False, items=None):
-    p = Popen(shlex.split(f"getinfo {imgf}"), stdout=PIPE,
-              stderr=PIPE).communicate()
-    err = p[1]
-    try:
-        err = err.decode("utf-8")
-    except AttributeError:
-        pass
-    if "bad header!" in err:
+    p = run(["getinfo", imgf], stdout=PIPE, stderr=PIPE)
+    err = p.stderr.decode("utf-8", "replace")
+    if p.returncode != 0:
         raise IOError(f"{err} - wrong file type?")
     try:
-        header = p[0].decode("utf-8")
+        header = p.stdout.decode("utf-8")
     except UnicodeDecodeError:
         raise IOError(f"{err} - wrong file type?")
     if "cannot open" in header:
-- 
2.43.0


From 020386bc90b98dd3a8fcdf343a280493a95f678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 04/25] fix: is_hdr reads the file as bytes

It compared text with bytes, so it was False (or a UnicodeDecodeError) for
every Radiance image.
---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index d190024..c57a32a 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -300,7 +300,7 @@ def clean_header(header):
 
 
 def is_hdr(imgf):
-    f = open(imgf)
+    f = open(imgf, 'rb')
     ishdr = f.read(10) == b'#?RADIANCE'
     f.close()
     return ishdr
-- 
2.43.0


From b0ddda5629baee5f29b6c7923dafa1ce5c8a800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 05/25] fix: hdr2vm/img_size raise when getinfo fails and leave
 nothing behind

A failed or killed getinfo silently produced a default view (or a 1x1 image
size and so a wrong view angle), a truncated resolution line was accepted, each
call leaked a file descriptor, needed a writable working directory for its
temporary file, and interpreted the characters of the path as shell syntax.
---
 raytools/imagetools.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 65afb52..18f0c4f 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -9,7 +9,6 @@
 
 """functions for translating from mappers to hdr"""
 import numpy as np
-import clasp.script_tools as cst
 
 
 from raytools import translate, io
@@ -219,27 +218,24 @@ def vf_to_vm(view):
 
 
 def img_size(imgf):
-    hd = cst.pipeline([f"getinfo -d {imgf}"]).strip().split()
-    x = 1
-    y = 1
-    for i in range(2, len(hd)):
-        if 'X' in hd[i - 1]:
-            x = int(hd[i])
-        elif 'Y' in hd[i - 1]:
-            y = int(hd[i])
+    out = io.call_tool(["getinfo", "-d", imgf]).decode("utf-8", "replace")
+    hd = out.rsplit(":", 1)[-1].split()
+    x = None
+    y = None
+    for key, val in zip(hd[:-1], hd[1:]):
+        if 'X' in key:
+            x = int(val)
+        elif 'Y' in key:
+            y = int(val)
+    if x is None or y is None or not out.endswith("\n"):
+        raise IOError(f"no image size in {imgf} - wrong file type?")
     return x, y
 
 
 def hdr2vm(imgf, vpt=False):
     """hdr to ViewMapper"""
-    header, err = cst.pipeline([f"getinfo {imgf}"], caperr=True)
-    try:
-        err = err.decode("utf-8")
-    except AttributeError:
-        pass
-    if "bad header!" in err:
-        raise IOError(f"{err} - wrong file type?")
-    elif "cannot open" in header:
+    header = io.call_tool(["getinfo", imgf]).decode("utf-8", "replace")
+    if "cannot open" in header:
         raise FileNotFoundError(f"{imgf} not found")
     vp = None
     if "VIEW= -vta" in header:
-- 
2.43.0


From 4cba02eee4dccc37c9f34d2a5c4401be47dc9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 06/25] fix: GSS accepts an image without a view in its header

hdr2vm returns None for such an image, which the view setter tried to open as a
file. As documented (and as metrics do), assume 180 degrees.
---
 raytools/evaluate/hvsgsm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index a7e4818..6eff8d7 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -412,15 +412,15 @@ class GSS:
 
     @vm.setter
     def vm(self, view):
-        if isinstance(view, ViewMapper):
+        if view is None or isinstance(view, ViewMapper):
             vm = view
         else:
             try:
                 vm = itl.hdr2vm(view)
             except ValueError:
                 vm = None
-            if vm is None:
-                vm = ViewMapper(viewangle=180)
+        if vm is None:
+            vm = ViewMapper(viewangle=180)
         self._vm = vm
 
     # Step 3
-- 
2.43.0


From cdf5dc65aab87548efa86f09f48e103d2593d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 07/25] fix: GSS stays consistent after a failed load or a
 change of view

Setting an image that cannot be processed (not square, all black, out of
memory) left its luminance next to view values of another image or resolution,
and changing vm kept the view values of the previous view for every image of
the same resolution.
---
 raytools/evaluate/hvsgsm.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 6eff8d7..0dfe846 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -345,21 +345,29 @@ class GSS:
     @lum.setter
     def lum(self, img):
         """reads image and updates view based values if necessary"""
-        self._lum = io.hdr2array(img)*self.scale
-        r = self._lum.shape[0]
+        self._set_lum(io.hdr2array(img)*self.scale)
+
+    def _set_lum(self, lum):
+        r = lum.shape[0]
+        if lum.shape != (r, r):
+            raise ValueError(f"GSS needs a square image, not {lum.shape}")
+        # if interrupted, no image is set and view values are not reused
+        self._lum = None
         if self._res != r:
+            self._res = 0
             self._vecs = self.vm.pixelrays(r)
             self._omega = self.vm.pixel2omega(self.vm.pixels(r), r)
             self._mask = self.vm.in_view(self._vecs, False)
             self._nmask = np.logical_not(self._mask)
             self._omega.flat[self._nmask] = 0
             ct = np.maximum(0, self.vm.ctheta(self._vecs))
-            self._ctheta = ct.reshape(self._lum.shape)
-            self._res = r
-            self._pparcmin = self.res/(60*self.vm.viewangle)
+            self._ctheta = ct.reshape(lum.shape)
+            self._pparcmin = r/(60*self.vm.viewangle)
             self.sigma_c = r
+            self._res = r
         self._ecc = np.average(self.sigma_c,
-                               weights=np.power(self._lum, 4) * self.omega)
+                               weights=np.power(lum, 4) * self.omega)
+        self._lum = lum
 
     @property
     def res(self):
@@ -422,6 +430,10 @@ class GSS:
         if vm is None:
             vm = ViewMapper(viewangle=180)
         self._vm = vm
+        # view values depend on vm, update them for an already loaded image
+        self._res = 0
+        if self._lum is not None:
+            self._set_lum(self._lum)
 
     # Step 3
     def pupil(self, ev):
-- 
2.43.0


From adf5e50dd1dde2a1b1bfe10adbdeedcf5c4aa5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 08/25] fix: metrics do not modify the solid angles of the
 caller

Correcting rays that overlap the view edge wrote into the array passed by the
caller (so evaluating the same rays again gave another result) and gave every
such ray the solid angle of the last one.
---
 raytools/evaluate/basemetricset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index bbda4a9..138875f 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -91,14 +91,15 @@ class BaseMetricSet(object):
                 a = self.vm.viewangle * np.pi / 360
                 a2 = np.square(a)
                 b2s = ost/np.pi
+                omega = np.copy(omega)
                 for s, b2, vst, d in zip(stray, b2s, vsts, ds):
                     b = np.sqrt(b2)
                     if a - b < d < a + b:
                         x = (a2 - b2 + np.square(d)) / (2 * d)
                         x2 = np.square(x)
                         y = np.sqrt(a2 - x2)
-                        omega[stray] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
-                                        y * (x + np.sqrt(b2 - a2 + x2)))
+                        omega[s] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
+                                    y * (x + np.sqrt(b2 - a2 + x2)))
                         up = np.cross(vst, self.vm.dxyz)
                         r = d - x
                         ymtx, pmtx = translate.rmtx_yp(up)
-- 
2.43.0


From 4f1ab5c4e140fd2061d65b2f8909740a60e7034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 09/25] fix: pool_call stops its workers when a call fails

The executor was never shut down: when a call raised, the calls still queued
kept starting in the background after the exception had reached the caller.
---
 raytools/utility.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/raytools/utility.py b/raytools/utility.py
index 7e2f8a1..52aa605 100644
--- a/raytools/utility.py
+++ b/raytools/utility.py
@@ -9,6 +9,7 @@
 
 """progress bar"""
 import shutil
+from contextlib import ExitStack
 
 from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
 from concurrent.futures import wait, FIRST_COMPLETED
@@ -63,6 +64,13 @@ class TStqdm(tqdm):
         super().set_description(desc=self.ts_message(desc), refresh=refresh)
 
 
+def _finish_pool(pool, futures):
+    """cancel calls that have not started and wait for those that have"""
+    for future in futures:
+        future.cancel()
+    pool.shutdown()
+
+
 def pool_call(func, args, *fixed_args, cap=None, expandarg=True,
               desc="processing", workers=True, pbar=True, context='fork', **kwargs):
     """calls func for a sequence of arguments using a ProcessPool executor
@@ -114,9 +122,12 @@ def pool_call(func, args, *fixed_args, cap=None, expandarg=True,
                 result.append(func(arg, *fixed_args, **kwargs))
         return result
     with TStqdm(workers=workers, total=len(args), cap=cap,
-                desc=desc, disable=not pbar, context=context) as pbar:
+                desc=desc, disable=not pbar, context=context) as pbar, \
+            ExitStack() as stack:
         exc = pbar.pool
         futures = []
+        # if a call fails, drop the remaining calls, never leave workers behind
+        stack.callback(_finish_pool, exc, futures)
         # submit asynchronous to process pool
         for arg in args:
             if expandarg:
-- 
2.43.0


From 3d90c8cd8dff3d4d169e3f553054cf83244c4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 10/25] fix: coordinate transforms do not modify the arrays of
 the caller

vxy2xyz and tpnorm (tp2xyz) worked in place, so transforming the same array
twice, or from two threads, gave different results.
---
 raytools/mapper/angularmixin.py | 3 +--
 raytools/mapper/mapper.py       | 1 +
 raytools/translate.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index de6c559..2cd86f8 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -68,8 +68,7 @@ class AngularMixin(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
-        pxy = np.atleast_2d(xy)
-        pxy -= .5
+        pxy = np.atleast_2d(xy) - .5
         pxy *= (np.array([self._xsign, 1]) *
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index fecf9e0..0854aaa 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -132,6 +132,7 @@ class Mapper(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
+        xy = np.copy(xy)
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
diff --git a/raytools/translate.py b/raytools/translate.py
index 4acecee..b69d111 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -231,7 +231,7 @@ def xyz2xy(xyz, axes=(0, 1, 2), flip=False):
 
 def tpnorm(thetaphi):
     """normalize angular vector to 0-pi, 0-2pi"""
-    thetaphi = np.atleast_2d(thetaphi)
+    thetaphi = np.copy(np.atleast_2d(thetaphi))
     thetaphi[:, 0] = np.mod(thetaphi[:, 0] + np.pi, np.pi)
     thetaphi[:, 1] = np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)
     return thetaphi
-- 
2.43.0


From 3bd92ef36d94f9b395f18719b6b5f4a189b83edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 11/25] fix: coordinate transforms restore numpy's error
 settings

uv2xy and uv2xyz switched off all numpy floating point errors for the rest of
the process, other transforms did so when interrupted by an exception.
---
 raytools/mapper/angularmixin.py          |  5 ++---
 raytools/mapper/perspectiveviewmapper.py |  5 ++---
 raytools/mapper/solidviewmapper.py       |  5 ++---
 raytools/mapper/viewmapper.py            |  5 ++---
 raytools/translate.py                    | 10 +++++-----
 5 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 2cd86f8..c04f7c8 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -73,9 +73,8 @@ class AngularMixin(object):
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
         z = np.cos(np.pi*d)
-        nperr = np.seterr(all="ignore")
-        d = np.where(d <= 0, np.pi, np.sqrt(1 - z*z)/d)
-        np.seterr(**nperr)
+        with np.errstate(all="ignore"):
+            d = np.where(d <= 0, np.pi, np.sqrt(1 - z*z)/d)
         pxy *= d[..., None]
         xyz = np.concatenate((pxy, z[..., None]), -1)
         xyz = self.view2world(xyz.reshape(-1, 3)).reshape(xyz.shape)
diff --git a/raytools/mapper/perspectiveviewmapper.py b/raytools/mapper/perspectiveviewmapper.py
index a992fc0..8925a23 100644
--- a/raytools/mapper/perspectiveviewmapper.py
+++ b/raytools/mapper/perspectiveviewmapper.py
@@ -70,9 +70,8 @@ class PerspectiveViewMapper(ViewMapper):
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
         z = np.cos(np.pi * d)
-        nperr = np.seterr(all="ignore")
-        d = np.where(d <= 0, np.pi, np.sqrt(1 - z * z) / d)
-        np.seterr(**nperr)
+        with np.errstate(all="ignore"):
+            d = np.where(d <= 0, np.pi, np.sqrt(1 - z * z) / d)
         pxy *= d[..., None]
         xyz = np.concatenate((pxy, z[..., None]), -1)
         xyz = self.view2world(xyz.reshape(-1, 3)).reshape(xyz.shape)
diff --git a/raytools/mapper/solidviewmapper.py b/raytools/mapper/solidviewmapper.py
index 372b612..0a556d3 100644
--- a/raytools/mapper/solidviewmapper.py
+++ b/raytools/mapper/solidviewmapper.py
@@ -72,9 +72,8 @@ class SolidViewMapper(ViewMapper):
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
         z = np.cos(np.pi * d)
-        nperr = np.seterr(all="ignore")
-        d = np.where(d <= 0, np.pi, np.sqrt(1 - z * z) / d)
-        np.seterr(**nperr)
+        with np.errstate(all="ignore"):
+            d = np.where(d <= 0, np.pi, np.sqrt(1 - z * z) / d)
         pxy *= d[..., None]
         xyz = np.concatenate((pxy, z[..., None]), -1)
         xyz = self.view2world(xyz.reshape(-1, 3)).reshape(xyz.shape)
diff --git a/raytools/mapper/viewmapper.py b/raytools/mapper/viewmapper.py
index 0354a0b..0b4d975 100644
--- a/raytools/mapper/viewmapper.py
+++ b/raytools/mapper/viewmapper.py
@@ -176,9 +176,8 @@ class ViewMapper(AngularMixin, Mapper):
                 (min(self.viewangle, 180) * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
         z = np.cos(np.pi * d)
-        nperr = np.seterr(all="ignore")
-        d = np.where(d <= 0, np.pi, np.sqrt(1 - z * z) / d)
-        np.seterr(**nperr)
+        with np.errstate(all="ignore"):
+            d = np.where(d <= 0, np.pi, np.sqrt(1 - z * z) / d)
         pxy *= d[..., None]
         xyz = np.concatenate((pxy, z[..., None]), -1)
         xyz = self.view2world(xyz.reshape(-1, 3)).reshape(xyz.shape)
diff --git a/raytools/translate.py b/raytools/translate.py
index b69d111..332e21c 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -37,7 +37,6 @@ def uv2xy(uv):
     -map.html.
     """
     uv = np.atleast_2d(uv)
-    np.seterr(all="ignore")
     xy = np.empty((uv.shape[0], 2), float)
     u = uv[:, 0]
     v = uv[:, 1]
@@ -47,7 +46,8 @@ def uv2xy(uv):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
     xy[:, 0] = n*np.cos(phi)*r
     xy[:, 1] = np.sin(phi)*r
     return xy
@@ -58,7 +58,6 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     http://psgraphics.blogspot.com/2011/01/improved-code-for-concentric
     -map.html.
     """
-    np.seterr(all="ignore")
     uv = np.atleast_2d(uv)
     xyz = np.empty((uv.shape[0], 3), float)
     u = uv[:, 0]
@@ -71,8 +70,9 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
-    sphterm = r*np.sqrt(2 - r*r)
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+        sphterm = r*np.sqrt(2 - r*r)
     # flip back x in positive z space
     xyz[:, axes[0]] = xsign*n*np.cos(phi)*sphterm
     xyz[:, axes[1]] = np.sin(phi)*sphterm
-- 
2.43.0


From f524616332e2b0b54cf190f699acc09c929f0f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 12/25] fix: metrics do not touch the global warning filters

warnings.catch_warnings is not thread safe: metrics evaluated in threads could
leave all warnings of the process suppressed. The suppressed warnings are
numpy floating point errors, for which np.errstate is thread safe.
---
 raytools/evaluate/basemetricset.py  | 6 ++----
 raytools/evaluate/colormetricset.py | 5 +----
 raytools/evaluate/hvsgsm.py         | 5 +----
 3 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index 138875f..38083b5 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -6,7 +6,6 @@
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
 import sys
-import warnings
 
 import numpy as np
 import functools
@@ -134,8 +133,7 @@ class BaseMetricSet(object):
         if self._warn:
             m = np.array([getattr(self, m) for m in metrics])
         else:
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore")
+            with np.errstate(all="ignore"):
                 m = np.array([getattr(self, m) for m in metrics])
         return m
 
@@ -263,7 +261,7 @@ class BaseMetricSet(object):
     @functools.lru_cache(1)
     def avgraylum(self):
         """average luminance (not weighted by omega"""
-        return np.average(self.lum) * self.scale
+        return np.sum(self.lum) / self.lum.size * self.scale
 
     @property
     @functools.lru_cache(1)
diff --git a/raytools/evaluate/colormetricset.py b/raytools/evaluate/colormetricset.py
index 777f040..bd40b38 100644
--- a/raytools/evaluate/colormetricset.py
+++ b/raytools/evaluate/colormetricset.py
@@ -5,8 +5,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
-import warnings
-
 import numpy as np
 import functools
 
@@ -98,8 +96,7 @@ class ColorMetricSet(MetricSet):
                 else:
                     out.append(r)
         else:
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore")
+            with np.errstate(all="ignore"):
                 for m in metrics:
                     r = getattr(self, m)
                     if hasattr(r, '__len__'):
diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 0dfe846..dc74cbf 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -5,8 +5,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
-import warnings
-
 import numpy as np
 from scipy.ndimage import convolve, gaussian_filter
 
@@ -639,8 +637,7 @@ class GSS:
         -------
         local_adaptation
         """
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             log10er = np.where(e_r > 0, np.log10(e_r), 0)
         e_a = np.power(10, self.contrast * log10er +
                        (1-self.contrast) * np.log10(e_g))
-- 
2.43.0


From cf1e6cc68ca60cf585b361042657fb08fb632c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 13/25] fix: Mapper.framesize follows a changed aspect

The cached frame size was returned after setting aspect.
---
 raytools/mapper/mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 0854aaa..7a8ed23 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -6,8 +6,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
-import functools
-
 import numpy as np
 from scipy.ndimage import uniform_filter
 
@@ -136,7 +134,6 @@ class Mapper(object):
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-    @functools.lru_cache(1)
     def framesize(self, res):
         if self.aspect < 1:
             yres = res
-- 
2.43.0


From 8f484dc0006a988d829f4caed9d48ac83be3b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 14/25] fix: Mapper.pixels can jitter pixel coordinates

The random offsets had a shape that does not broadcast to pixel coordinates, so
any jitter raised a ValueError.
---
 raytools/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 7a8ed23..cd4fea7 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -148,7 +148,7 @@ class Mapper(object):
         xres, yres = self.framesize(res)
         if jitter > 0:
             rng = ((1 - jitter)/2, (1 + jitter)/2)
-            offset = np.random.default_rng().uniform(*rng, (xres, yres)).T
+            offset = np.random.default_rng().uniform(*rng, (xres, yres, 2))
         else:
             offset = 0.5
         return np.stack(np.mgrid[0:xres, 0:yres], 2) + offset
-- 
2.43.0


From 1de8442a9fbd38176687c9b2dfccf3f32b763707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 15/25] fix: metric and project remove the temporary copy of
 stdin

Unlike the other commands they left clasp_tmp* files in the working directory
when reading an image from stdin.
---
 raytools/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/cli.py b/raytools/cli.py
index 9ee7c21..101d36a 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -145,6 +145,7 @@ def metric(ctx, imgs, metrics=None, parallel=True, peakn=False,
     print("image\t" + "\t".join(metrics))
     for img, result in zip(imgs, results):
         print(img + "\t" + "\t".join([f"{i:.06g}" for i in result]))
+    clk.tmp_clean(ctx)
 
 
 @main.command()
@@ -171,6 +172,7 @@ def project(ctx, img, uv2ang=False, useview=True, stdout=False, **kwargs):
         results = pool_call(func, img, expandarg=False, useview=useview)
         print("Wrote the Following image files:", file=sys.stderr)
         print("\n".join(results), file=sys.stderr)
+    clk.tmp_clean(ctx)
 
 
 @main.command()
-- 
2.43.0


From adaf931833d1de11bc0c228b245e6ffc66041bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 16/25] fix: metric --no-parallel also applies to gss and gssnb

The glare sensation scores were always computed with all available cores.
---
 raytools/cli.py             | 4 ++--
 raytools/evaluate/hvsgsm.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/raytools/cli.py b/raytools/cli.py
index 101d36a..c844a90 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -129,14 +129,14 @@ def metric(ctx, imgs, metrics=None, parallel=True, peakn=False,
     else:
         results = None
     if gss:
-        gresult = np.asarray(hvsgsm.gss_compute(imgs, save=gssimage))[:, None]
+        gresult = np.asarray(hvsgsm.gss_compute(imgs, save=gssimage, cap=cap))[:, None]
         metrics.append("gss")
         if results is not None:
             results = np.hstack((results, gresult))
         else:
             results = gresult
     if gssnb:
-        gresult = np.asarray(hvsgsm.gss_compute(imgs, psf=False, adaptmove=False, directmove=False, save=gssimage))[:, None]
+        gresult = np.asarray(hvsgsm.gss_compute(imgs, psf=False, adaptmove=False, directmove=False, save=gssimage, cap=cap))[:, None]
         metrics.append("gssnb")
         if results is not None:
             results = np.hstack((results, gresult))
diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index dc74cbf..dad52ed 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -17,7 +17,7 @@ from raytools.mapper import ViewMapper
 
 
 def gss_compute(imgs, illums=None, save=False, suffix="_rg.hdr", outdir=None,
-                **kwargs):
+                cap=None, **kwargs):
     """initialize a GSS instance and compute multiple images in parallel
 
     Parameters
@@ -34,6 +34,8 @@ def gss_compute(imgs, illums=None, save=False, suffix="_rg.hdr", outdir=None,
         suffix to append to image when save is True
     outdir: str, optional
         save response images to a different directory
+    cap: int, optional
+        execution cap for processing in parallel
     kwargs:
         passed to GSS initialization
 
@@ -50,7 +52,8 @@ def gss_compute(imgs, illums=None, save=False, suffix="_rg.hdr", outdir=None,
     else:
         imgs = list(zip(imgs, [None]*len(imgs)))
     return pool_call(process_gss, imgs, gss, outdir=outdir, outf=save,
-                     suffix=suffix, desc="calculating GSS", expandarg=True)
+                     suffix=suffix, desc="calculating GSS", expandarg=True,
+                     cap=cap)
 
 
 def process_gss(img, illum, ins, outf=False, outdir=None, suffix="_rg.hdr"):
-- 
2.43.0


From 7cc2916d21c1ed6ac4fddd99613d6322781ceffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 17/25] fix: pool_call stops the workers of a pool that failed
 to start

---
 raytools/utility.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/raytools/utility.py b/raytools/utility.py
index 52aa605..ff2fc85 100644
--- a/raytools/utility.py
+++ b/raytools/utility.py
@@ -66,9 +66,18 @@ class TStqdm(tqdm):
 
 def _finish_pool(pool, futures):
     """cancel calls that have not started and wait for those that have"""
+    procs = list((getattr(pool, "_processes", None) or {}).values())
     for future in futures:
         future.cancel()
-    pool.shutdown()
+    try:
+        pool.shutdown()
+    finally:
+        # a pool that could not start all of its workers does not stop the
+        # ones it did start
+        for proc in procs:
+            if proc.is_alive():
+                proc.terminate()
+            proc.join()
 
 
 def pool_call(func, args, *fixed_args, cap=None, expandarg=True,
-- 
2.43.0


From f34e241aa913cf0a951d132ab4ccbad94bcd23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 18/25] fix: GSS does not take an unreadable image for a view
 file

---
 raytools/evaluate/hvsgsm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index dad52ed..45781a7 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -233,6 +233,9 @@ class GSS:
             except ValueError:
                 self.vm = ViewMapper(viewangle=180)
             except IOError:
+                # an unreadable image is not a view file
+                if io.is_hdr(view):
+                    raise
                 self.vm = itl.vf_to_vm(view)
             else:
                 self.lum = view
-- 
2.43.0


From 34e81e70a669257d50fb3888fe22578554ba1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 19/25] fix: remove the copy of stdin however a command ends

---
 raytools/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/cli.py b/raytools/cli.py
index c844a90..2a647f0 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -39,6 +39,9 @@ def main(ctx, config=None, n=None,  **kwargs):
     """
     raytools.io.set_nproc(n)
     ctx.info_name = 'raytools'
+    # copies of stdin are removed however the command ends
+    ctx.obj = dict(temps=[])
+    ctx.call_on_close(lambda: clk.tmp_clean(ctx))
     clk.get_config(ctx, config, None, None, None)
 
 
-- 
2.43.0


From c000f7c651b795783aa6acc987340da5ebb5fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:38 +0000
Subject: [PATCH 20/25] fix: bytes2np reads back a zero dimensional array

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index c57a32a..c748fe6 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -96,7 +96,7 @@ def bytes2np(buf, shape, dtype='<f'):
     np.array
     """
     dt = np.dtype(dtype)
-    return np.frombuffer(buf, dtype=dt).reshape(*shape)
+    return np.frombuffer(buf, dtype=dt).reshape(tuple(shape))
 
 
 def bytefile2np(f, shape, dtype='<f'):
-- 
2.43.0


From 1190027fecc81d2da79e573e8d92ee06f55e2797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 21/25] fix: gss_compute scores each image with its own view

---
 raytools/evaluate/hvsgsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 45781a7..3b4f108 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -58,6 +58,8 @@ def gss_compute(imgs, illums=None, save=False, suffix="_rg.hdr", outdir=None,
 
 def process_gss(img, illum, ins, outf=False, outdir=None, suffix="_rg.hdr"):
     """called by gss_compute in parallel"""
+    # each image has its own view, not the one of the first image
+    ins.vm = img
     ins.lum = img
     if outf:
         saverg = img.rsplit(".", 1)[0] + suffix
-- 
2.43.0


From 8b134a364d43ebe1b2b6ce0a0701ae0a8f1ad632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 22/25] fix: imgmetric uses the default coefficients for
 irradiance without LuminanceRGB

---
 raytools/imagetools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 18f0c4f..910c2fa 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -469,6 +469,8 @@ def imgmetric(imgf, metrics, peakn=False, scale=179, lumrgb=None, threshold=2000
     if peakn:
         v, o, l = normalize_peak(v, o, l, scale, **peakwargs)
     if needscolor:
+        if lumrgb is None:
+            lumrgb = (0.265, 0.670, 0.065)
         return ColorMetricSet(v, o, l, vm, metrics, scale=scale,
                               threshold=threshold, lowlight=lowlight,
                               vlambda=lumrgb)()
-- 
2.43.0


From 8869ab960790e3a34f5cd719ad26c560a6bf15d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:39 +0000
Subject: [PATCH 23/25] fix: hdr_header drops only the #?RADIANCE line, not
 every line naming RADIANCE

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index c748fe6..d36b0e6 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -317,7 +317,7 @@ def hdr_header(imgf, clean=False, items=None):
         raise IOError(f"{err} - wrong file type?")
     if "cannot open" in header:
         raise FileNotFoundError(f"{imgf} not found")
-    header = [i for i in header.strip().splitlines() if not re.match(r".*#?RADIANCE.*", i)]
+    header = [i for i in header.strip().splitlines() if not re.match(r"\s*#\?RADIANCE", i)]
     if items is not None:
         header = header_items(header, items=items)
     elif clean:
-- 
2.43.0


From 9bb6fc343f893ce8a6307eb796f90fe5c31967e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:06 +0000
Subject: [PATCH 24/25] fix: a header line of dots after a file name is a line,
 not a continuation

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index d36b0e6..4acf807 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -510,7 +510,7 @@ class CleanHeader(object):
                 curf = cs[-1]['content']
             else:
                 curf = files
-            if key == "..." or key == lastkey and len(curf) > 0:  # unwrap previously cleaned header
+            if (key == "..." or key == lastkey) and len(curf) > 0:  # unwrap previously cleaned header
                 curf[-1] += " " + val.lstrip()
                 vals[-1] += " " + val.lstrip()
             elif cl in vals:  # promote
-- 
2.43.0


From 6ac8d520340706880cdb890ea97039deeded2732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:38 +0000
Subject: [PATCH 25/25] fix: a view change that is interrupted leaves no image
 in force, not one of the old view

---
 raytools/evaluate/hvsgsm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 3b4f108..84a78e9 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -435,11 +435,12 @@ class GSS:
                 vm = None
         if vm is None:
             vm = ViewMapper(viewangle=180)
-        self._vm = vm
         # view values depend on vm, update them for an already loaded image
+        lum, self._lum = self._lum, None
         self._res = 0
-        if self._lum is not None:
-            self._set_lum(self._lum)
+        self._vm = vm
+        if lum is not None:
+            self._set_lum(lum)
 
     # Step 3
     def pupil(self, ev):
-- 
2.43.0

