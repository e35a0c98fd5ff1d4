From 6602a61af0999a714b279e33e2d23b01806748a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 01/62] fix: read accumulators in place so a built C++ object
 keeps valid pointers

---
 treecorr/corr2base.py      |  8 ++++----
 treecorr/corr3base.py      | 26 +++++++++++++-------------
 treecorr/gggcorrelation.py | 16 ++++++++--------
 treecorr/kkcorrelation.py  |  2 +-
 treecorr/kkkcorrelation.py |  6 +++---
 treecorr/kzcorrelation.py  |  4 ++--
 treecorr/nkcorrelation.py  |  2 +-
 treecorr/nncorrelation.py  |  2 +-
 treecorr/nnncorrelation.py |  2 +-
 treecorr/nzcorrelation.py  |  4 ++--
 treecorr/zzcorrelation.py  |  8 ++++----
 11 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 09a3cd8..6d83d87 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1778,13 +1778,13 @@ class Corr2(object):
 
     def _read_from_data(self, data, params):
         s = self.logr.shape
-        self.meanr = data['meanr'].reshape(s)
-        self.meanlogr = data['meanlogr'].reshape(s)
+        self.meanr[:] = data['meanr'].reshape(s)
+        self.meanlogr[:] = data['meanlogr'].reshape(s)
         if 'weight' in data.dtype.names:
             # NN calls this DD rather than weight.  Let that class handle it.
             # But here, don't error if weight is missing.
-            self.weight = data['weight'].reshape(s)
-        self.npairs = data['npairs'].reshape(s)
+            self.weight[:] = data['weight'].reshape(s)
+        self.npairs[:] = data['npairs'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
         self.npatch1 = params.get('npatch1', 1)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2b7af88..27b3054 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2503,26 +2503,26 @@ class Corr3(object):
 
     def _read_from_data(self, data, params):
         s = self.data_shape
-        self.meand1 = data['meand1'].reshape(s)
-        self.meanlogd1 = data['meanlogd1'].reshape(s)
-        self.meand2 = data['meand2'].reshape(s)
-        self.meanlogd2 = data['meanlogd2'].reshape(s)
-        self.meand3 = data['meand3'].reshape(s)
-        self.meanlogd3 = data['meanlogd3'].reshape(s)
+        self.meand1[:] = data['meand1'].reshape(s)
+        self.meanlogd1[:] = data['meanlogd1'].reshape(s)
+        self.meand2[:] = data['meand2'].reshape(s)
+        self.meanlogd2[:] = data['meanlogd2'].reshape(s)
+        self.meand3[:] = data['meand3'].reshape(s)
+        self.meanlogd3[:] = data['meanlogd3'].reshape(s)
         if self.bin_type == 'LogRUV':
-            self.meanu = data['meanu'].reshape(s)
-            self.meanv = data['meanv'].reshape(s)
+            self.meanu[:] = data['meanu'].reshape(s)
+            self.meanv[:] = data['meanv'].reshape(s)
         elif self.bin_type == 'LogSAS':
-            self.meanu = data['meanphi'].reshape(s)
+            self.meanu[:] = data['meanphi'].reshape(s)
         if self.bin_type == 'LogMultipole':
-            self.weightr = data['weight_re'].reshape(s)
-            self.weighti = data['weight_im'].reshape(s)
+            self.weightr[:] = data['weight_re'].reshape(s)
+            self.weighti[:] = data['weight_im'].reshape(s)
         else:
             if 'weight' in data.dtype.names:
                 # NNN calls this DDD, rather than weight.  Let that class handle it.
                 # But here, don't error if weight is missing.
-                self.weightr = data['weight'].reshape(s)
-        self.ntri = data['ntri'].reshape(s)
+                self.weightr[:] = data['weight'].reshape(s)
+        self.ntri[:] = data['ntri'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
         self.npatch1 = params.get('npatch1', 1)
diff --git a/treecorr/gggcorrelation.py b/treecorr/gggcorrelation.py
index 06c7f6f..473afdd 100644
--- a/treecorr/gggcorrelation.py
+++ b/treecorr/gggcorrelation.py
@@ -684,14 +684,14 @@ class GGGCorrelation(Corr3):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.data_shape
-        self._z1 = data['gam0r'].reshape(s)
-        self._z2 = data['gam0i'].reshape(s)
-        self._z3 = data['gam1r'].reshape(s)
-        self._z4 = data['gam1i'].reshape(s)
-        self._z5 = data['gam2r'].reshape(s)
-        self._z6 = data['gam2i'].reshape(s)
-        self._z7 = data['gam3r'].reshape(s)
-        self._z8 = data['gam3i'].reshape(s)
+        self._z1[:] = data['gam0r'].reshape(s)
+        self._z2[:] = data['gam0i'].reshape(s)
+        self._z3[:] = data['gam1r'].reshape(s)
+        self._z4[:] = data['gam1i'].reshape(s)
+        self._z5[:] = data['gam2r'].reshape(s)
+        self._z6[:] = data['gam2i'].reshape(s)
+        self._z7[:] = data['gam3r'].reshape(s)
+        self._z8[:] = data['gam3i'].reshape(s)
         self._vargam0 = data['sigma_gam0'].reshape(s)**2
         self._vargam1 = data['sigma_gam1'].reshape(s)**2
         self._vargam2 = data['sigma_gam2'].reshape(s)**2
diff --git a/treecorr/kkcorrelation.py b/treecorr/kkcorrelation.py
index 3af547b..00b62e8 100644
--- a/treecorr/kkcorrelation.py
+++ b/treecorr/kkcorrelation.py
@@ -236,5 +236,5 @@ class KKCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data['xi'].reshape(s)
+        self._xi1[:] = data['xi'].reshape(s)
         self._varxi = data['sigma_xi'].reshape(s)**2
diff --git a/treecorr/kkkcorrelation.py b/treecorr/kkkcorrelation.py
index ad580e1..410066b 100644
--- a/treecorr/kkkcorrelation.py
+++ b/treecorr/kkkcorrelation.py
@@ -460,8 +460,8 @@ class KKKCorrelation(Corr3):
         super()._read_from_data(data, params)
         s = self.data_shape
         if self.bin_type == 'LogMultipole':
-            self._z1 = data['zeta_re'].reshape(s)
-            self._z2 = data['zeta_im'].reshape(s)
+            self._z1[:] = data['zeta_re'].reshape(s)
+            self._z2[:] = data['zeta_im'].reshape(s)
         else:
-            self._z1 = data['zeta'].reshape(s)
+            self._z1[:] = data['zeta'].reshape(s)
         self._varzeta = data['sigma_zeta'].reshape(s)**2
diff --git a/treecorr/kzcorrelation.py b/treecorr/kzcorrelation.py
index 7fe2cc1..82c7246 100644
--- a/treecorr/kzcorrelation.py
+++ b/treecorr/kzcorrelation.py
@@ -106,8 +106,8 @@ class BaseKZCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data[self._xireal].reshape(s)
-        self._xi2 = data[self._xiimag].reshape(s)
+        self._xi1[:] = data[self._xireal].reshape(s)
+        self._xi2[:] = data[self._xiimag].reshape(s)
         self._varxi = data['sigma'].reshape(s)**2
 
 
diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 37378e1..c6c75ec 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -320,7 +320,7 @@ class NKCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data['kappa'].reshape(s)
+        self._xi1[:] = data['kappa'].reshape(s)
         self._varxi = data['sigma'].reshape(s)**2
         self.xi = self.raw_xi
         self._raw_varxi = self._varxi
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3f1e681..0f0a167 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -708,7 +708,7 @@ class NNCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self.weight = data['DD'].reshape(s)
+        self.weight[:] = data['DD'].reshape(s)
         self.tot = params['tot']
         if 'xi' in data.dtype.names:
             self.xi = data['xi'].reshape(s)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f6e8978..b8d833e 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -947,7 +947,7 @@ class NNNCorrelation(Corr3):
             self.zeta = data['zeta'].reshape(s)
             self.varzeta = data['sigma_zeta'].reshape(s)**2
         if self.bin_type != 'LogMultipole':
-            self.weightr = data['DDD'].reshape(s)
+            self.weightr[:] = data['DDD'].reshape(s)
         self.tot = params['tot']
         # Note: "or None" turns False -> None
         self._rrr = params.get('_rrr', None) or None
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0ee43ae..ed8c14d 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -182,8 +182,8 @@ class BaseNZCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data[self._zreal].reshape(s)
-        self._xi2 = data[self._zimag].reshape(s)
+        self._xi1[:] = data[self._zreal].reshape(s)
+        self._xi2[:] = data[self._zimag].reshape(s)
         self._varxi = data['sigma'].reshape(s)**2
         self.xi = self.raw_xi
         self.xi_im = self.raw_xi_im
diff --git a/treecorr/zzcorrelation.py b/treecorr/zzcorrelation.py
index b0d16ea..dccfb4c 100644
--- a/treecorr/zzcorrelation.py
+++ b/treecorr/zzcorrelation.py
@@ -208,10 +208,10 @@ class BaseZZCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data['xip'].reshape(s)
-        self._xi2 = data['xip_im'].reshape(s)
-        self._xi3 = data['xim'].reshape(s)
-        self._xi4 = data['xim_im'].reshape(s)
+        self._xi1[:] = data['xip'].reshape(s)
+        self._xi2[:] = data['xip_im'].reshape(s)
+        self._xi3[:] = data['xim'].reshape(s)
+        self._xi4[:] = data['xim_im'].reshape(s)
         self._varxip = data['sigma_xip'].reshape(s)**2
         self._varxim = data['sigma_xim'].reshape(s)**2
 
-- 
2.43.0


From 9effc0b180afdc692734daae7c73f8614b2c1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 02/62] fix: reading a file discards results derived from the
 previous contents

---
 treecorr/corr2base.py      | 3 +++
 treecorr/corr3base.py      | 3 +++
 treecorr/nncorrelation.py  | 5 +++++
 treecorr/nnncorrelation.py | 5 +++++
 4 files changed, 16 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 6d83d87..45ee854 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1758,6 +1758,9 @@ class Corr2(object):
         # based on what was read in.
         self._read_from_data(data, params)
 
+        # Nothing derived from the previous contents is valid anymore.
+        self._cov = None
+        self.__dict__.pop('_ok',None)
         self.results = {}
         for i in range(num_zero_patch):
             zp_name = name + '_zp_%d'%i
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 27b3054..d7e4ede 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2483,6 +2483,9 @@ class Corr3(object):
         # based on what was read in.
         self._read_from_data(data, params)
 
+        # Nothing derived from the previous contents is valid anymore.
+        self._cov = None
+        self.__dict__.pop('_ok',None)
         self.results = {}
         for i in range(num_zero_patch):
             zp_name = name + '_zp_%d'%i
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 0f0a167..223952c 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -713,6 +713,11 @@ class NNCorrelation(Corr2):
         if 'xi' in data.dtype.names:
             self.xi = data['xi'].reshape(s)
             self.varxi = data['sigma_xi'].reshape(s)**2
+        else:
+            self.__dict__.pop('xi',None)
+            self.__dict__.pop('varxi',None)
+        self._rr_weight = None
+        self.__dict__.pop('_nonzero',None)
         # Note: "or None" turns False -> None
         self._rr = params.get('_rr', None) or None
         self._dr = params.get('_dr', None) or None
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index b8d833e..f95529b 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -946,6 +946,11 @@ class NNNCorrelation(Corr3):
         if 'zeta' in data.dtype.names:
             self.zeta = data['zeta'].reshape(s)
             self.varzeta = data['sigma_zeta'].reshape(s)**2
+        else:
+            self.zeta = None
+            self.__dict__.pop('varzeta',None)
+        self._rrr_weight = None
+        self.__dict__.pop('_nonzero',None)
         if self.bin_type != 'LogMultipole':
             self.weightr[:] = data['DDD'].reshape(s)
         self.tot = params['tot']
-- 
2.43.0


From c5bc91a1e37466584933d8d1c4452ba916b67246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 03/62] fix: clearing NN and NNN correlations drops the
 previous estimator results

---
 treecorr/nncorrelation.py  | 11 +++++++++++
 treecorr/nnncorrelation.py | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 223952c..eae2780 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -211,6 +211,17 @@ class NNCorrelation(Corr2):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        super().clear()
+        # Also drop anything calculateXi derived from the old data.
+        self.__dict__.pop('xi',None)
+        self.__dict__.pop('varxi',None)
+        self.__dict__.pop('_nonzero',None)
+        self._rr_weight = None
+        self._rr = self._dr = self._rd = None
+
     def _clear(self):
         """Clear the data vectors
         """
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f95529b..2473a6f 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -317,6 +317,17 @@ class NNNCorrelation(Corr3):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        super().clear()
+        # Also drop anything calculateZeta derived from the old data.
+        self.zeta = None
+        self.__dict__.pop('varzeta',None)
+        self.__dict__.pop('_nonzero',None)
+        self._rrr_weight = None
+        self._rrr = self._drr = self._rdd = None
+
     def _clear(self):
         super()._clear()
         self.tot = 0.
-- 
2.43.0


From e20d6022eb195c8026138f638b7fed0426ec3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 04/62] fix: summing patch results resets cached variances for
 KKK, GGG, NN and NNN

---
 treecorr/gggcorrelation.py | 5 +++++
 treecorr/kkkcorrelation.py | 2 ++
 treecorr/nncorrelation.py  | 1 +
 treecorr/nnncorrelation.py | 1 +
 4 files changed, 9 insertions(+)

diff --git a/treecorr/gggcorrelation.py b/treecorr/gggcorrelation.py
index 473afdd..f2c67a3 100644
--- a/treecorr/gggcorrelation.py
+++ b/treecorr/gggcorrelation.py
@@ -399,6 +399,11 @@ class GGGCorrelation(Corr3):
         if self.bin_type == 'LogMultipole':
             np.sum([c.weighti for c in others], axis=0, out=self.weighti)
         np.sum([c.ntri for c in others], axis=0, out=self.ntri)
+        self._vargam0 = None
+        self._vargam1 = None
+        self._vargam2 = None
+        self._vargam3 = None
+        self._cov = None
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
diff --git a/treecorr/kkkcorrelation.py b/treecorr/kkkcorrelation.py
index 410066b..1aa8fb2 100644
--- a/treecorr/kkkcorrelation.py
+++ b/treecorr/kkkcorrelation.py
@@ -294,6 +294,8 @@ class KKKCorrelation(Corr3):
             np.sum([c._z2 for c in others], axis=0, out=self._z2)
             np.sum([c.weighti for c in others], axis=0, out=self.weighti)
         np.sum([c.ntri for c in others], axis=0, out=self.ntri)
+        self._varzeta = None
+        self._cov = None
 
     def toSAS(self, *, target=None, **kwargs):
         """Convert a multipole-binned correlation to the corresponding SAS binning.
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index eae2780..c97378f 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -257,6 +257,7 @@ class NNCorrelation(Corr2):
             np.sum([c.weight for c in others], axis=0, out=self.weight)
             np.sum([c.npairs for c in others], axis=0, out=self.npairs)
         self.tot = tot
+        self._cov = None
 
     def _add_tot(self, ij, c1, c2):
         # When storing results from a patch-based run, tot needs to be accumulated even if
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 2473a6f..02ef4d0 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -358,6 +358,7 @@ class NNNCorrelation(Corr3):
             if self.bin_type == 'LogMultipole':
                 np.sum([c.weighti for c in others], axis=0, out=self.weighti)
         self.tot = tot
+        self._cov = None
 
     def _add_tot(self, ijk, c1, c2, c3):
         # When storing results from a patch-based run, tot needs to be accumulated even if
-- 
2.43.0


From 6f4698e4970d9d9d9eec3416d794e70ca41a34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 05/62] fix: patch pairs added for NK and NZ compensation are
 empty and reset the pair mask

---
 treecorr/nkcorrelation.py | 5 +++--
 treecorr/nzcorrelation.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index c6c75ec..e118c61 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -230,9 +230,10 @@ class NKCorrelation(Corr2):
                 for ij in rk.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    # This invalidates self._ok, so remove it.
+                    self.__dict__.pop('_ok',None)
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index ed8c14d..0655314 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -132,9 +132,10 @@ class BaseNZCorrelation(Corr2):
                 for ij in rz.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    # This invalidates self._ok, so remove it.
+                    self.__dict__.pop('_ok',None)
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
-- 
2.43.0


From 999e241c215f35aec87ab09a6fbcb158f4cde6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 06/62] fix: resampled NK and NZ results keep raw_xi and
 compensate the imaginary part

---
 treecorr/nkcorrelation.py | 2 +-
 treecorr/nzcorrelation.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index e118c61..542d522 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -256,7 +256,7 @@ class NKCorrelation(Corr2):
             # Make sure all ij are in the rk results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
             self._rk._calculate_xi_from_pairs(pairs)
-            self.xi -= self._rk.xi
+            self.xi = self.raw_xi - self._rk.xi
 
     def write(self, file_name, * ,rk=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0655314..468cdda 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -159,7 +159,8 @@ class BaseNZCorrelation(Corr2):
             # Make sure all ij are in the rz results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
             self._rz._calculate_xi_from_pairs(pairs)
-            self.xi -= self._rz.xi
+            self.xi = self.raw_xi - self._rz.xi
+            self.xi_im = self.raw_xi_im - self._rz.xi_im
 
     def write(self, file_name, rz=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
-- 
2.43.0


From 39fcd0cb6d16d6df29efdc2cc304b2403be528bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 07/62] fix: NK and NZ keep the raw and compensated covariances
 apart

---
 treecorr/nkcorrelation.py | 6 ++++++
 treecorr/nzcorrelation.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 542d522..0f1ef72 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -215,6 +215,8 @@ class NKCorrelation(Corr2):
                 - varxi = array of variance estimates of :math:`\xi(r)`
         """
         if rk is not None:
+            # Make sure this is set while self._cov is still that of raw_xi.
+            self.raw_varxi
             self.xi = self.raw_xi - rk.xi
             self._rk = rk
 
@@ -242,6 +244,10 @@ class NKCorrelation(Corr2):
                 self._varxi = self.raw_varxi + rk.varxi
         else:
             self.xi = self.raw_xi
+            if self._rk is not None:
+                # Undo any previous compensation.
+                self._rk = None
+                self._cov = None
             self._varxi = self.raw_varxi
 
         return self.xi, self.varxi
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 468cdda..f0ee793 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -116,6 +116,8 @@ class BaseNZCorrelation(Corr2):
 
     def calculateXi(self, rz=None):
         if rz is not None:
+            # Make sure this is set while self._cov is still that of raw_xi.
+            self.raw_varxi
             self.xi = self.raw_xi - rz.xi
             self.xi_im = self.raw_xi_im - rz.xi_im
             self._rz = rz
@@ -145,6 +147,10 @@ class BaseNZCorrelation(Corr2):
         else:
             self.xi = self.raw_xi
             self.xi_im = self.raw_xi_im
+            if self._rz is not None:
+                # Undo any previous compensation.
+                self._rz = None
+                self._cov = None
             self._varxi = self.raw_varxi
 
         return self.xi, self.xi_im, self.varxi
-- 
2.43.0


From 38faf14f56d88ffe93eb7e613a34dd8417863410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 08/62] fix: copies of a correlation do not share patch results
 with the original

---
 treecorr/corr2base.py | 10 ++++++++--
 treecorr/corr3base.py |  9 +++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 45ee854..08c53fb 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -678,9 +678,11 @@ class Corr2(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 # And the read-only things are all in _ro.
-                # The results dict is trickier.  We rely on it being copied in places, but we
-                # never add more to it after the copy, so shallow copy is fine.
                 ret.__dict__[key] = item
+        # These containers are modified in place by process, so they can't be shared.
+        for key in ['results', '_processed_cats1', '_processed_cats2']:
+            if key in ret.__dict__:
+                ret.__dict__[key] = ret.__dict__[key].copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -791,6 +793,8 @@ class Corr2(object):
                              'for this set of separations',ij)
         if temp.nonzero or force_write:
             if ij in self.results and self.results[ij].nonzero:
+                # Not in place.  A copy of self might share this item.
+                self.results[ij] = self.results[ij].copy()
                 self.results[ij] += temp
             else:
                 self.results[ij] = temp.copy()
@@ -881,6 +885,8 @@ class Corr2(object):
                         if (i,i) not in self.results:
                             self.results[(i,i)] = temp.copy()
                         else:
+                            # Not in place.  A copy of self might share this item.
+                            self.results[(i,i)] = self.results[(i,i)].copy()
                             self.results[(i,i)] += temp
                         self += temp
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index d7e4ede..dbe201b 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1070,6 +1070,9 @@ class Corr3(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 ret.__dict__[key] = item
+        # The results dict is modified in place by process, so it can't be shared.
+        if 'results' in ret.__dict__:
+            ret.results = self.results.copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -1135,6 +1138,8 @@ class Corr3(object):
                              'for this set of separations',ijj)
         if temp.nonzero or force_write:
             if ijj in self.results and self.results[ijj].nonzero:
+                # Not in place.  A copy of self might share this item.
+                self.results[ijj] = self.results[ijj].copy()
                 self.results[ijj] += temp
             else:
                 self.results[ijj] = temp.copy()
@@ -1155,6 +1160,8 @@ class Corr3(object):
                              'for this set of separations',ijk)
         if temp.nonzero or force_write:
             if ijk in self.results and self.results[ijk].nonzero:
+                # Not in place.  A copy of self might share this item.
+                self.results[ijk] = self.results[ijk].copy()
                 self.results[ijk] += temp
             else:
                 self.results[ijk] = temp.copy()
@@ -1239,6 +1246,8 @@ class Corr3(object):
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
                         if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
+                            # Not in place.  A copy of self might share this item.
+                            self.results[(i,i,i)] = self.results[(i,i,i)].copy()
                             self.results[(i,i,i)] += temp
                         else:
                             self.results[(i,i,i)] = temp.copy()
-- 
2.43.0


From f234132b40531ae46dba28824867c6363769af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 09/62] fix: ZField, VField, TField and QField accept a numpy
 Generator

---
 treecorr/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6946bea..6f414d7 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -678,7 +678,7 @@ class ZField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -741,7 +741,7 @@ class VField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -867,7 +867,7 @@ class TField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -929,7 +929,7 @@ class QField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
-- 
2.43.0


From c514362222cd47c933592cba036f25ffce3a4beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 10/62] fix: weight used for meanlogd3 in unordered multipole
 cross-correlations

---
 src/Corr3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index b93d8bb..8a1857e 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1479,7 +1479,7 @@ void Corr3<D1,D2,D3>::calculateZeta(
                 _meand3[i] += w1 * (mp2.sumw[k2] * mp3.sumwr[k3] +
                                     mp3.sumw[k2] * mp2.sumwr[k3]);
                 _meanlogd3[i] += w1 * (mp2.sumw[k2] * mp3.sumwlogr[k3] +
-                                       mp3.sumw[k3] * mp2.sumwlogr[k3]);
+                                       mp3.sumw[k2] * mp2.sumwlogr[k3]);
             }
             i += (_nbins - k3end) * nnbins;
         }
-- 
2.43.0


From 8232c328713c9aba39271dcd82ba7cd065b9fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 11/62] fix: sample_pairs restores the number of OpenMP threads

---
 src/Corr2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index ccebc52..e5b0b03 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -1127,7 +1127,8 @@ long SamplePairs(BaseCorr2& corr, BaseField<C>& field1, BaseField<C>& field2,
     Sampler sampler(corr, minsep, maxsep, i1, i2, sep, n);
 
     // I don't know how to do the sampling safely in parallel, so temporarily set num_threads=1.
-    int old_num_threads = SetOMPThreads(1);
+    int old_num_threads = GetOMPThreads();
+    SetOMPThreads(1);
     ProcessCross(sampler, field1, field2, false, metric);
     SetOMPThreads(old_num_threads);
 
-- 
2.43.0


From fcee3d400d3e97955025c23c73ccbd1ffccd5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 12/62] fix: meanphi of empty LogSAS bins is in phi_units

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index dbe201b..7962bbe 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1861,7 +1861,7 @@ class Corr3(object):
             self.meand3[mask2] = self.d3nom[mask2]
             self.meanlogd3[mask2] = self.logd3[mask2]
             if self.bin_type == 'LogSAS':
-                self.meanu[mask2] = self.phi[mask2]
+                self.meanu[mask2] = self.phi[mask2] / self._phi_units
                 self.meand1[mask2] = np.sqrt(self.d2nom[mask2]**2 + self.d3nom[mask2]**2
                                              - 2*self.d2nom[mask2]*self.d3nom[mask2]*
                                              np.cos(self.phi[mask2]))
-- 
2.43.0


From 00be8b367ff0b2641f59fae6dec871353af176ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 13/62] fix: reject catalogs with only one component given
 through an eval option

---
 treecorr/catalog.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8fb02db..6a4ae34 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1754,19 +1754,19 @@ class Catalog(object):
             raise ValueError("q2_col is missing for file %s"%file_name)
 
         # Either both shoudl be 0 or both != 0.
-        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z1_eval is None):
+        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z2_eval is None):
             raise ValueError("z1_col, z2_col=(%s, %s) are invalid for file %s"%(
                         z1_col,z2_col,file_name))
-        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v1_eval is None):
+        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v2_eval is None):
             raise ValueError("v1_col, v2_col=(%s, %s) are invalid for file %s"%(
                         v1_col,v2_col,file_name))
-        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g1_eval is None):
+        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g2_eval is None):
             raise ValueError("g1_col, g2_col=(%s, %s) are invalid for file %s"%(
                         g1_col,g2_col,file_name))
-        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t1_eval is None):
+        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t2_eval is None):
             raise ValueError("t1_col, t2_col=(%s, %s) are invalid for file %s"%(
                         t1_col,t2_col,file_name))
-        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q1_eval is None):
+        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q2_eval is None):
             raise ValueError("q1_col, q2_col=(%s, %s) are invalid for file %s"%(
                         q1_col,q2_col,file_name))
 
-- 
2.43.0


From 38c57728bf165c35ec975a9ab4d9ea37e5fcbb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 14/62] fix: reading NK and NZ results drops the randoms
 compensation of the previous contents

---
 treecorr/nkcorrelation.py | 1 +
 treecorr/nzcorrelation.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 0f1ef72..36f196f 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -331,3 +331,4 @@ class NKCorrelation(Corr2):
         self._varxi = data['sigma'].reshape(s)**2
         self.xi = self.raw_xi
         self._raw_varxi = self._varxi
+        self._rk = None
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index f0ee793..e681e87 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -196,6 +196,7 @@ class BaseNZCorrelation(Corr2):
         self.xi = self.raw_xi
         self.xi_im = self.raw_xi_im
         self._raw_varxi = self._varxi
+        self._rz = None
 
 class NZCorrelation(BaseNZCorrelation):
     r"""This class handles the calculation and storage of a 2-point count-complex correlation
-- 
2.43.0


From 8b43f62882b51bb1d0587e448d92e90a6aaae519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 15/62] fix: patches of a catalog use the random generator
 given to the catalog

---
 treecorr/catalog.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 6a4ae34..284f3c9 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2910,7 +2910,7 @@ class Catalog(object):
         for i, file_name in zip(range(self.npatch), file_names):
             if not os.path.isfile(file_name):
                 raise OSError("Patch file %s not found"%file_name)
-        self._patches = [Catalog(file_name=name, patch=i, npatch=self.npatch, **kwargs)
+        self._patches = [Catalog(file_name=name, patch=i, npatch=self.npatch, rng=self._rng, **kwargs)
                          for i, name in enumerate(file_names)]
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
 
@@ -2955,7 +2955,8 @@ class Catalog(object):
                 # This triggers a load of the current catalog, but no choice here.
                 patch_set = sorted(set(self.patch))
             self._patches = [Catalog(config=self.config, file_name=self.file_name,
-                                     patch=i, npatch=self.npatch, patch_centers=self._centers)
+                                     patch=i, npatch=self.npatch, patch_centers=self._centers,
+                                     rng=self._rng)
                              for i in patch_set]
         else:
             patch_set = sorted(set(self.patch))
@@ -2995,7 +2996,7 @@ class Catalog(object):
                 p = Catalog(x=x, y=y, z=z, ra=ra, dec=dec, r=r, w=w, wpos=wpos,
                             k=k, z1=z1, z2=z2, v1=v1, v2=v2, g1=g1, g2=g2,
                             t1=t1, t2=t2, q1=q1, q2=q2,
-                            patch=i, npatch=self.npatch, **kwargs)
+                            patch=i, npatch=self.npatch, rng=self._rng, **kwargs)
                 self._patches.append(p)
 
         # Write the patches to files if requested.
-- 
2.43.0


From f88e33156ecd42fcb083e365e923cbeab224ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 16/62] fix: converting multipole results to SAS keeps the
 random generator

---
 treecorr/corr3base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 7962bbe..17fa06b 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1747,7 +1747,7 @@ class Corr3(object):
                 max_n = config.get('max_n', max_n)
             for key in ['min_phi', 'max_phi', 'nphi_bins', 'phi_bin_size']:
                 config.pop(key, None)
-            corr = self.__class__(config, max_n=max_n)
+            corr = self.__class__(config, max_n=max_n, rng=self._rng)
             corr.process(cat1, cat2, cat3,
                          metric=metric, ordered=ordered, num_threads=num_threads,
                          comm=comm, low_mem=low_mem, initialize=initialize, finalize=finalize,
@@ -1975,6 +1975,7 @@ class Corr3(object):
             max_n = config.pop('max_n')
             if 'nphi_bins' not in kwargs and 'phi_bin_size' not in kwargs:
                 config['nphi_bins'] = max_n
+            kwargs.setdefault('rng', self._rng)
             sas = self.__class__(config, **kwargs)
         else:
             if not isinstance(target, self.__class__):
-- 
2.43.0


From f896e59538ea794791a3f2ceb418e7045194e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 17/62] fix: seeded random splitting of cells does not depend
 on the thread schedule

---
 src/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 3ecd669..ee9c970 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -258,7 +258,7 @@ void Field<D,C>::DoBuildCells() const
     dbg<<"Field has "<<n<<" top-level nodes.  Building lower nodes...\n";
     this->_cells.resize(n);
 #ifdef _OPENMP
-#pragma omp parallel for
+#pragma omp parallel for if(SM != Random)
 #endif
     for(ptrdiff_t i=0;i<n;++i) {
         CellData<D,C>* top_data_i = static_cast<CellData<D,C>*>(top_data[i]);
-- 
2.43.0


From 210c8725ad3227a7f7bb905ae9bc51d78e115057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 18/62] fix: per-thread copies of correlation objects carry
 every parameter

---
 src/Corr2.cpp | 2 +-
 src/Corr3.cpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index e5b0b03..79b31fe 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -95,7 +95,7 @@ Corr2<D1,D2>::Corr2(
 BaseCorr2::BaseCorr2(const BaseCorr2& rhs) :
     _bin_type(rhs._bin_type),
     _minsep(rhs._minsep), _maxsep(rhs._maxsep), _nbins(rhs._nbins),
-    _binsize(rhs._binsize), _b(rhs._b),
+    _binsize(rhs._binsize), _b(rhs._b), _a(rhs._a),
     _minrpar(rhs._minrpar), _maxrpar(rhs._maxrpar),
     _xp(rhs._xp), _yp(rhs._yp), _zp(rhs._zp),
     _logminsep(rhs._logminsep), _halfminsep(rhs._halfminsep),
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 8a1857e..fc1d9cc 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -154,6 +154,7 @@ BaseCorr3::BaseCorr3(const BaseCorr3& rhs):
     _ubinsize(rhs._ubinsize), _bu(rhs._bu),
     _minv(rhs._minv), _maxv(rhs._maxv), _nvbins(rhs._nvbins),
     _vbinsize(rhs._vbinsize), _bv(rhs._bv),
+    _xp(rhs._xp), _yp(rhs._yp), _zp(rhs._zp),
     _logminsep(rhs._logminsep), _halfminsep(rhs._halfminsep),
     _minsepsq(rhs._minsepsq), _maxsepsq(rhs._maxsepsq),
     _minusq(rhs._minusq), _maxusq(rhs._maxusq),
-- 
2.43.0


From bf51c24ae5ecd6ead1df3df058172366ec892e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 19/62] fix: resampled results of toSAS do not convert the
 units of the mean distances twice

---
 treecorr/corr3base.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 17fa06b..3b12706 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2024,7 +2024,8 @@ class Corr3(object):
             temp.weightr[:] = np.real(v.weight.dot(expiphi)) / (2*np.pi) * sas.phi_bin_size
             temp.ntri[:] = temp.weight * ratio[:,:,None]
 
-            # Undo the normalization of the d arrays.
+            # Undo the final units and the normalization of the d arrays.
+            temp._undo_units()
             temp.meand1 *= temp.weightr
             temp.meand2 *= temp.weightr
             temp.meand3 *= temp.weightr
@@ -2239,6 +2240,31 @@ class Corr3(object):
         self.meand3[mask] /= self._sep_units
         self.meanlogd3[mask] -= self._log_sep_units
 
+    def _undo_units(self):
+        # The inverse of _apply_units for LogSAS binning.
+        self.meanphi[:] *= self._phi_units
+        self.meand1[:] *= self._sep_units
+        self.meanlogd1[:] += self._log_sep_units
+        self.meand2[:] *= self._sep_units
+        self.meanlogd2[:] += self._log_sep_units
+        self.meand3[:] *= self._sep_units
+        self.meanlogd3[:] += self._log_sep_units
+
+        if self.coords == 'spherical' and self.metric == 'Euclidean':
+            # Convert the angles back to chord distances.
+            self.meand1[:] = 2. * np.sin(self.meand1/2.)
+            self.meanlogd1[:] = np.log(2.*np.sin(np.exp(self.meanlogd1)/2.))
+            self.meand2[:] = 2. * np.sin(self.meand2/2.)
+            self.meanlogd2[:] = np.log(2.*np.sin(np.exp(self.meanlogd2)/2.))
+            self.meand3[:] = 2. * np.sin(self.meand3/2.)
+            self.meanlogd3[:] = np.log(2.*np.sin(np.exp(self.meanlogd3)/2.))
+
+            # And phi back to the angle in the chord triangle.
+            cosphi = np.cos(self.meanphi)
+            cosphi *= np.sqrt( (1 - self.meand2**2/4) * (1 - self.meand3**2/4) )
+            cosphi += 0.25 * self.meand2 * self.meand3
+            self.meanphi[:] = np.arccos(cosphi)
+
     def _get_minmax_size(self):
         if self.metric == 'Euclidean':
             if self.bin_type == 'LogRUV':
-- 
2.43.0


From b8aac70c37864612c46db80a3c562401b4f2a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 20/62] fix: the slop of Linear and TwoD bins is computed in
 the units of the separations

b = bin_size * bin_slop was in sep_units while the cell sizes it is compared
with are in radians, so with sep_units='arcmin' nearly nothing was split.
---
 treecorr/corr2base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 08c53fb..c36edc3 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -473,7 +473,7 @@ class Corr2(object):
         self._ro.angle_slop = get(self.config,'angle_slop',float,self._default_angle_slop)
         if self.bin_slop < 0.0:
             self._ro.bin_slop = min(max_good_slop, 1.0)
-        self._ro.b = self.bin_size * self.bin_slop
+        self._ro.b = self._bin_size * self.bin_slop  # in the same (natural) units as _bin_size
         if self.bin_slop > max_good_slop + 0.0001 and self.angle_slop > 0.1:
             self.logger.warning(
                 "Using bin_slop = %g, angle_slop = %g, bin_size = %g (b = %g).\n"%(
-- 
2.43.0


From db06ab5402e7f857b15ce356dece5e0bb6b87e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 21/62] fix: patches of flat catalogs with x_units are written
 in radians

read_patches reads the positions without units, but write_patches divided by
x_units when the patches had been made from a file, and it left the units of
the catalog itself changed when there is only one patch.
---
 treecorr/catalog.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 284f3c9..25ae223 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2832,10 +2832,19 @@ class Catalog(object):
                 os.remove(file_name)
         for i, p, file_name in zip(range(self.npatch), self.patches, file_names):
             self.logger.info('Writing patch %d to %s',i,file_name)
+            # Don't multiply and divide by the units on round trip.
+            # (read_patches reads the positions in radians.)
             if p.ra is not None:
-                # Don't multiply and divide by the units on round trip.
+                units = p.ra_units, p.dec_units
                 p.ra_units = p.dec_units = 1
-            p.write(file_name)
+                p.write(file_name)
+                p.ra_units, p.dec_units = units
+            else:
+                p.load()
+                units = p.x_units, p.y_units
+                p.x_units = p.y_units = 1
+                p.write(file_name)
+                p.x_units, p.y_units = units
 
     def read_patches(self, save_patch_dir=None):
         """Read the patches from files on disk.
-- 
2.43.0


From 713053c1a834880c311735bb6411b15839ebec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 22/62] fix: low-memory patches read the same columns as the
 catalog they come from

get_patches(low_mem=True) dropped num (and is_rand), so when the configuration
lists one value per catalog, the patches of the second one used the first value.
---
 treecorr/catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 25ae223..9329c53 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2964,6 +2964,7 @@ class Catalog(object):
                 # This triggers a load of the current catalog, but no choice here.
                 patch_set = sorted(set(self.patch))
             self._patches = [Catalog(config=self.config, file_name=self.file_name,
+                                     num=self._num, is_rand=self._is_rand,
                                      patch=i, npatch=self.npatch, patch_centers=self._centers,
                                      rng=self._rng)
                              for i in patch_set]
-- 
2.43.0


From 63a20ed79dc640040e85f09e0d9039b062ad0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 23/62] fix: 3d cells average shears with directions on the
 unit sphere

---
 src/Cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 90f9aad..e09afe0 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -294,7 +294,7 @@ std::complex<double> ParallelTransportSum(
         // the initial bit where we calculate A,B.  (We don't call that function directly,
         // because there is a slight efficiency gain that sinA = sinB, which we use here.)
         Position<Sphere> pi(vdata_g->getPos());
-        double z1 = center.getZ();
+        double z1 = cen.getZ();
         double z2 = pi.getZ();
         double dsq = (cen - pi).normSq();
         if (dsq < 1.e-12) {
-- 
2.43.0


From 090ba8577da70022f6aa695adf05389ece8be933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 24/62] fix: xip_im of reversed TwoD pairs is the complex
 conjugate

---
 src/Corr2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 79b31fe..32e09a4 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -496,7 +496,8 @@ struct DirectHelper2<3,ZData,ZData>
 
         if (R) {
             xi.xip[k2] += z1z2cr;
-            xi.xip_im[k2] += z1z2ci;
+            // The reversed pair has z2 * conj(z1) = conj(z1 * conj(z2)).
+            xi.xip_im[k2] -= z1z2ci;
             xi.xim[k2] += z1z2r;
             xi.xim_im[k2] += z1z2i;
         }
@@ -551,7 +552,8 @@ struct DirectHelper2<5,D1,D2>
 
         if (R) {
             xi.xip[k2] += g1g2cr;
-            xi.xip_im[k2] += g1g2ci;
+            // The reversed pair has g2 * conj(g1) = conj(g1 * conj(g2)).
+            xi.xip_im[k2] -= g1g2ci;
             xi.xim[k2] += g1g2r;
             xi.xim_im[k2] += g1g2i;
         }
-- 
2.43.0


From e67e8313f4b6f50e40da4e2b8250cb37566a0c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 25/62] fix: resampled NN and NNN use the right DR results when
 the second field has no patches

---
 treecorr/nncorrelation.py  | 2 +-
 treecorr/nnncorrelation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index c97378f..251f383 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -482,7 +482,7 @@ class NNCorrelation(Corr2):
         rrf = dd_tot / self._rr.tot
 
         if self._dr is not None:
-            if self._dr.npatch2 == 1:
+            if self._dr.npatch2 == 1 and not all([p[1] == 0 for p in pairs]):
                 # If r doesn't have patches, then convert all (i,i) pairs to (i,0).
                 pairs2 = [(ij[0],0) for ij in pairs if ij[0] == ij[1]]
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 02ef4d0..e1c5fbe 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -632,7 +632,7 @@ class NNNCorrelation(Corr3):
         rrrf = ddd_tot / self._rrr.tot
 
         if self._drr is not None:
-            if self._drr.npatch2 == 1:
+            if self._drr.npatch2 == 1 and not all([p[1] == 0 for p in pairs]):
                 # If r doesn't have patches, then convert all (i,i,i) pairs to (i,0,0).
                 pairs2 = [(ij[0],0,0) for ij in pairs if ij[0] == ij[1] == ij[2]]
             else:
-- 
2.43.0


From 7f332ebba086bd9d601ff265a47357dfee23be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 26/62] fix: count the total weight of every patch combination
 exactly once

Patch pairs that were forced to be written but skipped as too far apart did not contribute
to NN tot, and a second process call with initialize=False dropped the tot (or the counts)
already stored for a combination when one of the two contributions was empty.
---
 treecorr/corr2base.py      | 38 +++++++++++++++++-----------
 treecorr/corr3base.py      | 52 +++++++++++++++++++++-----------------
 treecorr/nncorrelation.py  |  7 ++++-
 treecorr/nnncorrelation.py |  7 ++++-
 4 files changed, 64 insertions(+), 40 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index c36edc3..e3ec701 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -31,6 +31,12 @@ from .catalog import Catalog
 class Namespace(object):
     pass
 
+class _EmptyPatch:
+    # A stand-in for an expanded patch that has no objects close enough to make any pairs.
+    # NNCorrelation still needs the sumw of the full catalog to get its tot value right.
+    def __init__(self, sumw):
+        self.sumw = sumw
+
 class Corr2(object):
     """This class stores the results of a 2-point correlation calculation, along with some
     ancillary data.
@@ -772,7 +778,7 @@ class Corr2(object):
             if low_mem and p is not cat1:
                 p.unload()
         if len(cat_list) == 0:
-            return None
+            return _EmptyPatch(sumw)
         else:
             cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
             # This is important for NN correlations to get the tot to work out right.
@@ -786,22 +792,25 @@ class Corr2(object):
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
-        if c2 is not None and not self._trivially_zero(c1, c2):
+        skip = isinstance(c2, _EmptyPatch) or self._trivially_zero(c1, c2)
+        if not skip:
             temp.process_cross(c1, c2, metric=metric, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
-        if temp.nonzero or force_write:
-            if ij in self.results and self.results[ij].nonzero:
-                # Not in place.  A copy of self might share this item.
-                self.results[ij] = self.results[ij].copy()
-                self.results[ij] += temp
-            else:
-                self.results[ij] = temp.copy()
+        if temp.nonzero or (force_write and not skip):
+            # Not in place.  A copy of self might share the existing item.
+            # And the existing one may be just a _zero_copy, which only has a valid tot value.
+            result = temp.copy()
+            if ij in self.results:
+                result += self.results[ij]
+            self.results[ij] = result
             self += temp
         else:
             # NNCorrelation needs to add the tot value
             self._add_tot(ij, c1, c2)
+            if force_write and ij not in self.results:
+                self.results[ij] = temp.copy()
 
     def _process_all_auto(self, cat1, metric, num_threads, comm, low_mem, local):
 
@@ -882,12 +891,11 @@ class Corr2(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i) not in self.results:
-                            self.results[(i,i)] = temp.copy()
-                        else:
-                            # Not in place.  A copy of self might share this item.
-                            self.results[(i,i)] = self.results[(i,i)].copy()
-                            self.results[(i,i)] += temp
+                        # Not in place.  A copy of self might share the existing item.
+                        result = temp.copy()
+                        if (i,i) in self.results:
+                            result += self.results[(i,i)]
+                        self.results[(i,i)] = result
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 3b12706..fc225fa 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -24,7 +24,7 @@ from . import _treecorr
 from .config import merge_config, setup_logger, get, make_minimal_config
 from .util import parse_metric, metric_enum, coord_enum, set_omp_threads, lazy_property
 from .util import make_reader
-from .corr2base import estimate_multi_cov, build_multi_cov_design_matrix, Corr2
+from .corr2base import estimate_multi_cov, build_multi_cov_design_matrix, Corr2, _EmptyPatch
 from .catalog import Catalog
 
 class Namespace(object):
@@ -1130,45 +1130,52 @@ class Corr3(object):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
         temp._clear()
 
-        if c2 is not None and not self._trivially_zero(c1,c2,c2):
+        skip = isinstance(c2, _EmptyPatch) or self._trivially_zero(c1,c2,c2)
+        if not skip:
             self.logger.info('Process patches %s cross12',ijj)
             temp.process_cross12(c1, c2, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
-        if temp.nonzero or force_write:
-            if ijj in self.results and self.results[ijj].nonzero:
-                # Not in place.  A copy of self might share this item.
-                self.results[ijj] = self.results[ijj].copy()
-                self.results[ijj] += temp
-            else:
-                self.results[ijj] = temp.copy()
+        if temp.nonzero or (force_write and not skip):
+            # Not in place.  A copy of self might share the existing item.
+            # And the existing one may be just a _zero_copy, which only has a valid tot value.
+            result = temp.copy()
+            if ijj in self.results:
+                result += self.results[ijj]
+            self.results[ijj] = result
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijj, c1, c2, c2)
+            if force_write and ijj not in self.results:
+                self.results[ijj] = temp.copy()
 
     def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
         temp._clear()
 
-        if c2 is not None and c3 is not None and not self._trivially_zero(c1,c2,c3):
+        skip = (isinstance(c2, _EmptyPatch) or isinstance(c3, _EmptyPatch) or
+                self._trivially_zero(c1,c2,c3))
+        if not skip:
             self.logger.info('Process patches %s cross',ijk)
             temp.process_cross(c1, c2, c3, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
-        if temp.nonzero or force_write:
-            if ijk in self.results and self.results[ijk].nonzero:
-                # Not in place.  A copy of self might share this item.
-                self.results[ijk] = self.results[ijk].copy()
-                self.results[ijk] += temp
-            else:
-                self.results[ijk] = temp.copy()
+        if temp.nonzero or (force_write and not skip):
+            # Not in place.  A copy of self might share the existing item.
+            # And the existing one may be just a _zero_copy, which only has a valid tot value.
+            result = temp.copy()
+            if ijk in self.results:
+                result += self.results[ijk]
+            self.results[ijk] = result
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijk, c1, c2, c3)
+            if force_write and ijk not in self.results:
+                self.results[ijk] = temp.copy()
 
     def _process_all_auto(self, cat1, metric, num_threads, comm, low_mem, local):
 
@@ -1245,12 +1252,11 @@ class Corr3(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
-                            # Not in place.  A copy of self might share this item.
-                            self.results[(i,i,i)] = self.results[(i,i,i)].copy()
-                            self.results[(i,i,i)] += temp
-                        else:
-                            self.results[(i,i,i)] = temp.copy()
+                        # Not in place.  A copy of self might share the existing item.
+                        result = temp.copy()
+                        if (i,i,i) in self.results:
+                            result += self.results[(i,i,i)]
+                        self.results[(i,i,i)] = result
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 251f383..41f6f95 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -269,7 +269,12 @@ class NNCorrelation(Corr2):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
-        self.results[ij] = self._zero_copy(tot)
+        if ij in self.results:
+            # Not in place.  A copy of self might share this item.
+            self.results[ij] = self.results[ij].copy()
+            self.results[ij].tot += tot
+        else:
+            self.results[ij] = self._zero_copy(tot)
 
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index e1c5fbe..fa79d12 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -372,7 +372,12 @@ class NNNCorrelation(Corr3):
         # We also have to keep all pairs in the results dict, otherwise the tot calculation
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
-        self.results[ijk] = self._zero_copy(tot)
+        if ijk in self.results:
+            # Not in place.  A copy of self might share this item.
+            self.results[ijk] = self.results[ijk].copy()
+            self.results[ijk].tot += tot
+        else:
+            self.results[ijk] = self._zero_copy(tot)
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From 1aff3fb696fc7a5e86e1926bb436d57bb196b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 27/62] fix: local patch results are stored by the same patch
 number for every index, so npatch says so

---
 treecorr/corr2base.py |  3 +++
 treecorr/corr3base.py | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index e3ec701..67182cd 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -971,6 +971,9 @@ class Corr2(object):
             temp.results = {}  # Don't mess up the original results
 
             if local:
+                # The results are all stored using the patch number of cat1 for both indices.
+                if self.npatch2 == 1:
+                    self.npatch2 = n1
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, n1, n2):
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index fc225fa..a3b9e47 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1363,6 +1363,11 @@ class Corr3(object):
             ordered1 = 1 if ordered else 0
 
             if local:
+                # The results are all stored using the same patch number for all indices.
+                n = n1 if ordered else max(n1,n2)
+                self.npatch1 = n if n1 == 1 else n1
+                self.npatch2 = n if n2 == 1 else n2
+                self.npatch3 = n if n2 == 1 else n2
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, i, n1, n2):
@@ -1481,6 +1486,11 @@ class Corr3(object):
             temp.results = {}
 
             if local:
+                # The results are all stored using the same patch number for all indices.
+                n = n1 if ordered else max(n1,n2,n3)
+                self.npatch1 = n if n1 == 1 else n1
+                self.npatch2 = n if n2 == 1 else n2
+                self.npatch3 = n if n3 == 1 else n3
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, i, n1, n2, n3):
-- 
2.43.0


From 90058ad45823b9163bf3fc8e2aa01fa43356c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 28/62] fix: three-catalog correlations require catalogs 2 and
 3 to use the same patches

---
 treecorr/corr3base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index a3b9e47..7aae60a 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1467,6 +1467,8 @@ class Corr3(object):
                 raise RuntimeError("Cross correlation requires all catalogs use the same patches.")
             if self.npatch1 != self.npatch3 and self.npatch1 != 1 and self.npatch3 != 1:
                 raise RuntimeError("Cross correlation requires all catalogs use the same patches.")
+            if self.npatch2 != self.npatch3 and self.npatch2 != 1 and self.npatch3 != 1:
+                raise RuntimeError("Cross correlation requires all catalogs use the same patches.")
 
             # Setup for deciding when this is my job.
             n1 = self.npatch1
-- 
2.43.0


From 90c3efb6941ce23c1524b414d3b7676e6ade039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:44 +0000
Subject: [PATCH 29/62] fix: read patch results that are all zero from a file
 without named groups

---
 treecorr/corr2base.py | 2 +-
 treecorr/corr3base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 67182cd..88d3a75 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1768,7 +1768,7 @@ class Corr2(object):
         num_patch_pairs = params.get('num_patch_pairs', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_pairs and name is None else name
+        name = 'main' if (num_patch_pairs or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 7aae60a..8a0c9cb 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2530,7 +2530,7 @@ class Corr3(object):
         num_patch_tri = params.get('num_patch_tri', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_tri and name is None else name
+        name = 'main' if (num_patch_tri or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
-- 
2.43.0


From 3205105a89751dd463ad433973ec799f1cada9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 30/62] fix: record the number of rows when a covariance
 follows the data, so ASCII files can be read

---
 treecorr/corr2base.py | 1 +
 treecorr/corr3base.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 88d3a75..83cb814 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1742,6 +1742,7 @@ class Corr2(object):
             params['num_patch_pairs'] = num_patch_pairs
         if write_cov:
             params['cov_shape'] = self.cov.shape
+            params['num_rows'] = len(self.rnom.ravel())
 
         writer.write(col_names, data, params=params, ext=name)
         if write_patch_results:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 8a0c9cb..207cc0b 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2504,6 +2504,7 @@ class Corr3(object):
             params['num_patch_tri'] = num_patch_tri
         if write_cov:
             params['cov_shape'] = self.cov.shape
+            params['num_rows'] = self._nbins
 
         writer.write(col_names, data, params=params, ext=name)
         if write_patch_results:
-- 
2.43.0


From fb78d8646808f8868c0adf9a37e427a1c6d68a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 31/62] fix: read back complex and 1x1 covariances from ASCII
 and HDF5 files

---
 treecorr/reader.py | 10 ++++++++--
 treecorr/writer.py |  6 +++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index f09c0b0..53453df 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -191,7 +191,13 @@ class AsciiReader(object):
         Returns:
             array
         """
-        data = np.genfromtxt(self.file, max_rows=shape[0])
+        # Covariances of complex correlations are complex.
+        data = np.genfromtxt(self.file, max_rows=shape[0], dtype=complex)
+        if not np.any(data.imag):
+            data = data.real.copy()
+        if data.ndim < len(shape) and data.size == np.prod(shape):
+            # genfromtxt drops dimensions of length 1
+            data = data.reshape(shape)
         assert data.shape == shape
         return data
 
@@ -770,7 +776,7 @@ class HdfReader(object):
             array
         """
         g = self._group(ext)
-        data = np.empty(shape)
+        data = np.empty(shape, dtype=g['data'].dtype)
         data[:] = g['data']
         return data
 
diff --git a/treecorr/writer.py b/treecorr/writer.py
index 7855a3c..c33f32b 100644
--- a/treecorr/writer.py
+++ b/treecorr/writer.py
@@ -85,7 +85,11 @@ class AsciiWriter(object):
         if ext is not None:
             s = '## %s\n'%ext
             self.file.write(s.encode())
-        np.savetxt(self.file, data, fmt=self.fmt)
+        fmt = self.fmt
+        if np.iscomplexobj(data):
+            # By default, savetxt puts spaces in complex numbers, so they can't be read back.
+            fmt = ' '.join(['%%.%de%%+.%dej'%(self.precision, self.precision)] * data.shape[1])
+        np.savetxt(self.file, data, fmt=fmt)
 
     def __enter__(self):
         self._file = open(self.file_name, 'wb')
-- 
2.43.0


From 8842672f990aa3cb68287c48beabb409385ce67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 32/62] fix: reject the Periodic metric with spherical
 coordinates (it silently ran Euclidean)

---
 treecorr/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/util.py b/treecorr/util.py
index 0fcc205..168d648 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -334,6 +334,8 @@ def parse_metric(metric, coords, coords2=None, coords3=None):
         raise ValueError("Rlens metric is only valid for catalogs with 3d positions.")
     if metric == 'Arc' and coords not in ['spherical', '3d']:
         raise ValueError("Arc metric is only valid for catalogs with spherical positions.")
+    if metric == 'Periodic' and coords == 'spherical':
+        raise ValueError("Periodic metric is not valid for catalogs with spherical positions.")
 
     return coords, metric
 
-- 
2.43.0


From 37074491e8f91c22540aa30dec90feaa692780a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 33/62] fix: reject metrics without a three-point
 implementation (nothing was accumulated)

---
 treecorr/corr3base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 207cc0b..42cc78f 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2194,6 +2194,8 @@ class Corr3(object):
         if metric is None:
             metric = get(self.config,'metric',str,'Euclidean')
         coords, metric = parse_metric(metric, coords1, coords2, coords3)
+        if metric not in ['Euclidean', 'Arc', 'Periodic']:
+            raise ValueError("%s metric is not valid for three-point correlations."%metric)
         if self.coords is not None or self.metric is not None:
             if coords != self.coords:
                 self.logger.warning("Detected a change in catalog coordinate systems. "+
-- 
2.43.0


From 764e2dbfb74fedc164e2404e78875b46065aa2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 34/62] fix: reject unknown split methods (they silently ran as
 random)

---
 treecorr/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6f414d7..cf83c5c 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -25,7 +25,8 @@ def _parse_split_method(split_method):
     if split_method == 'middle': return _treecorr.Middle
     elif split_method == 'median': return _treecorr.Median
     elif split_method == 'mean': return _treecorr.Mean
-    else: return _treecorr.Random  # random
+    elif split_method == 'random': return _treecorr.Random
+    else: raise ValueError("Invalid split_method %s"%split_method)
 
 
 class Field(object):
-- 
2.43.0


From bf13841b85cf64f533e2ae309a87b30ef6bf2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:35 +0000
Subject: [PATCH 35/62] fix: two pair or triangle counts with different totals
 are not equal

---
 treecorr/nncorrelation.py  | 4 ++++
 treecorr/nnncorrelation.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 41f6f95..00532ee 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -117,6 +117,10 @@ class NNCorrelation(Corr2):
         self._write_patch_results = False
         self.logger.debug('Finished building NNCorr')
 
+    def __eq__(self, other):
+        """Return whether two Correlation instances are equal"""
+        return super().__eq__(other) and self.tot == other.tot
+
     def copy(self):
         """Make a copy"""
         ret = super().copy()
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index fa79d12..c774626 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -189,6 +189,10 @@ class NNNCorrelation(Corr3):
         self._z5 = self._z6 = self._z7 = self._z8 = x
         self.logger.debug('Finished building NNNCorr')
 
+    def __eq__(self, other):
+        """Return whether two Correlation instances are equal"""
+        return super().__eq__(other) and self.tot == other.tot
+
     def copy(self):
         """Make a copy"""
         ret = super().copy()
-- 
2.43.0


From 3e43b2a679af6650354001ea4a9a2496045429a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 36/62] fix: Catalog.select discards trees, patches and
 statistics of the rows it removes

---
 treecorr/catalog.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 9329c53..8e47ff1 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1419,7 +1419,7 @@ class Catalog(object):
         if self._nontrivial_w and not keep_zero_weight:
             wpos = self._wpos if self._wpos is not None else self._w
             if np.any(wpos == 0):
-                self.select(np.where(wpos != 0)[0])
+                self._select(np.where(wpos != 0)[0])
 
         if self._single_patch is not None or self._patch is not None:
             # Easier to get these options out of the way first.
@@ -1587,7 +1587,7 @@ class Catalog(object):
         # which items to remove along the way based on the patch_centers.
         indx = self._get_patch_index(single_patch)
         self._patch = None
-        self.select(indx)
+        self._select(indx)
 
     def select(self, indx):
         """Trim the catalog to only include those objects with the give indices.
@@ -1595,6 +1595,25 @@ class Catalog(object):
         Parameters:
             indx:       A numpy array of index values to keep.
         """
+        if type(indx) == slice and indx == slice(None):
+            return
+        self.load()
+        self._select(indx)
+
+        # Anything derived from the full set of rows is no longer valid.
+        self.clear_cache()
+        self._patches = None
+        self._computed_centers = None
+        self.__dict__.pop('_cen_s', None)
+        self._nobj = None
+        self._sumw = np.sum(self._w) if self._nontrivial_w else self.ntot
+        self._sumw2 = None
+        for f in ['k', 'z', 'v', 'g', 't', 'q']:
+            if self.config.get('var' + f, None) is None:
+                setattr(self, '_var' + f, None)
+
+    def _select(self, indx):
+        # Just trim the columns.  Used while the catalog is still being set up.
         if type(indx) == slice and indx == slice(None):
             return
         self._x = self._x[indx] if self._x is not None else None
@@ -2095,7 +2114,7 @@ class Catalog(object):
                     x_col = y_col = z_col = ra_col = dec_col = r_col = '0'
                     x_eval = y_eval = z_eval = ra_eval = dec_eval = r_eval = None
                 use = self._get_patch_index(self._single_patch)
-                self.select(use)
+                self._select(use)
                 if s == slice(None):
                     s = use
                 else:
-- 
2.43.0


From fada0f28c98cce667ae5825138590d09cc264c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 37/62] fix: sample_pairs uses a tree built with its own
 settings, not whichever was built last

---
 treecorr/corr2base.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 83cb814..d4d850c 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1513,28 +1513,19 @@ class Corr2(object):
 
         self._set_metric(metric, cat1.coords, cat2.coords)
 
-        f1 = cat1.field
-        f2 = cat2.field
-
-        if f1 is None or f1._coords != self._coords:
-            # I don't really know if it's possible to get the coords out of sync,
-            # so the 2nd check might be superfluous.
-            # The first one though is definitely possible, so we need to check that.
-            self.logger.debug("In sample_pairs, making default field for cat1")
-            min_size, max_size = self._get_minmax_size()
-            f1 = cat1.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 1,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
-        if f2 is None or f2._coords != self._coords:
-            self.logger.debug("In sample_pairs, making default field for cat2")
-            min_size, max_size = self._get_minmax_size()
-            f2 = cat2.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 2,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
+        # Note: The last field that was built for each catalog (cat.field) may have been made with
+        # different parameters, so ask for the right one, which will be cached if there is one.
+        min_size, max_size = self._get_minmax_size()
+        f1 = cat1.getNField(min_size=min_size, max_size=max_size,
+                            split_method=self.split_method,
+                            brute=self.brute is True or self.brute == 1,
+                            min_top=self.min_top, max_top=self.max_top,
+                            coords=self.coords)
+        f2 = cat2.getNField(min_size=min_size, max_size=max_size,
+                            split_method=self.split_method,
+                            brute=self.brute is True or self.brute == 2,
+                            min_top=self.min_top, max_top=self.max_top,
+                            coords=self.coords)
 
         # Apply units to min_sep, max_sep:
         min_sep *= self._sep_units
-- 
2.43.0


From b302ecdff38f584982e36327f5e95d42982dbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:17 +0000
Subject: [PATCH 38/62] fix: a single patch can be read from part of a file
 whatever rows it has

---
 treecorr/catalog.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8e47ff1..588de65 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2117,9 +2117,8 @@ class Catalog(object):
                 self._select(use)
                 if s == slice(None):
                     s = use
-                else:
-                    end1 = np.max(use)*s.step+s.start+1
-                    s = np.arange(s.start, end1, s.step)[use]
+                elif not isinstance(use, slice):
+                    s = s.start + s.step * use
                 self._patch = None
                 data = {}  # Start fresh, since the ones we used so far are done.
 
-- 
2.43.0


From b4989bad40275d2e9308c75dc620f34b81c5d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:34 +0000
Subject: [PATCH 39/62] fix: the flag column has the same rows as the others
 when a catalog is trimmed, checked and discarded

---
 treecorr/catalog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 588de65..91232fd 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -974,6 +974,8 @@ class Catalog(object):
                 raise ValueError("w has the wrong numbers of elements")
             if self._wpos is not None and len(self._wpos) != ntot:
                 raise ValueError("wpos has the wrong numbers of elements")
+            if self._flag is not None and len(self._flag) != ntot:
+                raise ValueError("flag has the wrong numbers of elements")
             if self._k is not None and len(self._k) != ntot:
                 raise ValueError("k has the wrong numbers of elements")
             if self._z1 is not None and len(self._z1) != ntot:
@@ -1624,6 +1626,7 @@ class Catalog(object):
         self._r = self._r[indx] if self._r is not None else None
         self._w = self._w[indx] if self._w is not None else None
         self._wpos = self._wpos[indx] if self._wpos is not None else None
+        self._flag = self._flag[indx] if self._flag is not None else None
         self._k = self._k[indx] if self._k is not None else None
         self._z1 = self._z1[indx] if self._z1 is not None else None
         self._z2 = self._z2[indx] if self._z2 is not None else None
@@ -2792,6 +2795,7 @@ class Catalog(object):
             self._r = None
             self._w = None
             self._wpos = None
+            self._flag = None
             self._k = None
             self._z1 = None
             self._z2 = None
-- 
2.43.0


From 0abb3d65dc3670b529c5f91ff8673d3d24832bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 40/62] fix: chosen rows of several columns can be read from
 Parquet files

---
 treecorr/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index 53453df..5a91a39 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -428,9 +428,9 @@ class ParquetReader():
             The data as a recarray or simple numpy array as appropriate
         """
         if np.isscalar(cols):
-            return self.df[cols][s].to_numpy()
+            return self.df[cols].iloc[s].to_numpy()
         else:
-            return self.df[cols][s].to_records()
+            return self.df[cols].iloc[s].to_records()
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the named extension and column
-- 
2.43.0


From 08652bd7620c6dfcfbe42a011ca5168147159fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 41/62] fix: patches read back from files have the columns the
 catalog would have

---
 treecorr/catalog.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 91232fd..f567ec4 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2895,44 +2895,50 @@ class Catalog(object):
         # This would be easier if we just checked e.g. if self.ra is not None, etc.
         # But that would trigger an unnecessary load if we aren't loaded yet.
         # So do all this with the underscore attributes.
+        def has(name):
+            if name in ['k','z1','z2','v1','v2','g1','g2','t1','t2','q1','q2'] and self._is_rand:
+                return False
+            return (get_from_list(self.config, name+'_col', self._num, str, '0') != '0' or
+                    get_from_list(self.config, name+'_eval', self._num, str, None) is not None)
+
         kwargs = {}
-        if self._ra is not None or self.config.get('ra_col','0') != '0':
+        if self._ra is not None or has('ra'):
             kwargs['ra_col'] = 'ra'
             kwargs['dec_col'] = 'dec'
             kwargs['ra_units'] = 'rad'
             kwargs['dec_units'] = 'rad'
-            if self._r is not None or self.config.get('r_col','0') != '0':
+            if self._r is not None or has('r'):
                 kwargs['r_col'] = 'r'
         else:
             kwargs['x_col'] = 'x'
             kwargs['y_col'] = 'y'
-            if self._z is not None or self.config.get('z_col','0') != '0':
+            if self._z is not None or has('z'):
                 kwargs['z_col'] = 'z'
-        if (self._w is not None and self._nontrivial_w)  or self.config.get('w_col','0') != '0':
+        if (self._w is not None and self._nontrivial_w)  or has('w'):
             kwargs['w_col'] = 'w'
-        if self._wpos is not None or self.config.get('wpos_col','0') != '0':
+        if self._wpos is not None or has('wpos'):
             kwargs['wpos_col'] = 'wpos'
-        if self._k is not None or self.config.get('k_col','0') != '0':
+        if self._k is not None or has('k'):
             kwargs['k_col'] = 'k'
-        if self._z1 is not None or self.config.get('z1_col','0') != '0':
+        if self._z1 is not None or has('z1'):
             kwargs['z1_col'] = 'z1'
-        if self._z2 is not None or self.config.get('z2_col','0') != '0':
+        if self._z2 is not None or has('z2'):
             kwargs['z2_col'] = 'z2'
-        if self._v1 is not None or self.config.get('v1_col','0') != '0':
+        if self._v1 is not None or has('v1'):
             kwargs['v1_col'] = 'v1'
-        if self._v2 is not None or self.config.get('v2_col','0') != '0':
+        if self._v2 is not None or has('v2'):
             kwargs['v2_col'] = 'v2'
-        if self._g1 is not None or self.config.get('g1_col','0') != '0':
+        if self._g1 is not None or has('g1'):
             kwargs['g1_col'] = 'g1'
-        if self._g2 is not None or self.config.get('g2_col','0') != '0':
+        if self._g2 is not None or has('g2'):
             kwargs['g2_col'] = 'g2'
-        if self._t1 is not None or self.config.get('t1_col','0') != '0':
+        if self._t1 is not None or has('t1'):
             kwargs['t1_col'] = 't1'
-        if self._t2 is not None or self.config.get('t2_col','0') != '0':
+        if self._t2 is not None or has('t2'):
             kwargs['t2_col'] = 't2'
-        if self._q1 is not None or self.config.get('q1_col','0') != '0':
+        if self._q1 is not None or has('q1'):
             kwargs['q1_col'] = 'q1'
-        if self._q2 is not None or self.config.get('q2_col','0') != '0':
+        if self._q2 is not None or has('q2'):
             kwargs['q2_col'] = 'q2'
 
         file_names = self.get_patch_file_names(save_patch_dir)
-- 
2.43.0


From 31a1e1b9b8ede9abf4ce8a71d2c9194a0c46647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 42/62] fix: patches read back from files keep objects of zero
 weight if the catalog does

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index f567ec4..6b552fa 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2901,7 +2901,7 @@ class Catalog(object):
             return (get_from_list(self.config, name+'_col', self._num, str, '0') != '0' or
                     get_from_list(self.config, name+'_eval', self._num, str, None) is not None)
 
-        kwargs = {}
+        kwargs = dict(keep_zero_weight=get(self.config,'keep_zero_weight',bool,False))
         if self._ra is not None or has('ra'):
             kwargs['ra_col'] = 'ra'
             kwargs['dec_col'] = 'dec'
-- 
2.43.0


From dbc5ebb5832fb41a2fc010f957db7ffaa715a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:50 +0000
Subject: [PATCH 43/62] fix: in low-memory mode the three-catalog patch loop
 releases every patch of the second catalog

---
 treecorr/corr3base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 42cc78f..d9e3df6 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1541,8 +1541,7 @@ class Corr3(object):
                                                         (i==j==k or n1==1 or n2==1 or n3==1))
                                 if low_mem:
                                     c3.unload()
-                        if low_mem and jj != ii+1:
-                            # Don't unload i+1, since that's the next one we'll need.
+                        if low_mem:
                             c2.unload()
                     if low_mem:
                         c1.unload()
-- 
2.43.0


From cf9030faa09670642628fcf7f6223a75d2e9e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 44/62] fix: the number of objects is not computed from weights
 that have been unloaded

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 6b552fa..e1f3907 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1255,7 +1255,7 @@ class Catalog(object):
     def nobj(self):
         if self._nobj is None:
             if self.nontrivial_w:
-                use = self._w != 0
+                use = self.w != 0
                 self._nobj = np.sum(use)
             else:
                 self._nobj = self.ntot
-- 
2.43.0


From 088db01ad91cc17efc103074b3318daa1c798bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 45/62] fix: patch_eval is used to compute the patch numbers

The parameter was documented and accepted, but never read.
---
 treecorr/catalog.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index e1f3907..e47460a 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -836,8 +836,10 @@ class Catalog(object):
             # file name version may be in a config dict, rather than kwarg.
             patch_centers = get(self.config,'patch_centers',str)
 
+        has_patch_col = (self.config.get('patch_col',0) not in (0,'0') or
+                         get_from_list(self.config,'patch_eval',num,str,None) is not None)
         if patch_centers is not None:
-            if patch is not None or self.config.get('patch_col',0) not in (0,'0'):
+            if patch is not None or has_patch_col:
                 raise ValueError("Cannot provide both patch and patch_centers")
             if isinstance(patch_centers, np.ndarray):
                 self._centers = patch_centers
@@ -850,7 +852,7 @@ class Catalog(object):
             self._npatch = get(self.config,'npatch',int)
             if self._npatch < 1:
                 raise ValueError("npatch must be >= 1")
-        elif self.config.get('patch_col',0) not in (0,'0'):
+        elif has_patch_col:
             self._npatch = None  # Mark that we need to finish loading to figure out npatch.
         elif self._single_patch:
             raise ValueError("Either npatch or patch_centers is required when providing "
@@ -1988,9 +1990,9 @@ class Catalog(object):
                     self.logger.debug('read r')
                 self._apply_radec_units()
 
-        def set_patch(data, patch_col):
-            if patch_col != '0' and patch_col in data:
-                self._patch = data[patch_col].astype(int)
+        def set_patch(data, patch_col, patch_eval):
+            if patch_eval is not None or (patch_col != '0' and patch_col in data):
+                self._patch = parse_value(data, patch_col, patch_eval, int)
                 self.logger.debug('read patch')
                 self._set_npatch()
 
@@ -2037,6 +2039,7 @@ class Catalog(object):
         t2_eval = get_from_list(self.config,'t2_eval',num,str,None)
         q1_eval = get_from_list(self.config,'q1_eval',num,str,None)
         q2_eval = get_from_list(self.config,'q2_eval',num,str,None)
+        patch_eval = get_from_list(self.config,'patch_eval',num,str,None)
         extra_cols = get(self.config,'extra_cols',list,[])
 
         with reader:
@@ -2097,10 +2100,19 @@ class Catalog(object):
             data = {}
             # Also, if we are only reading in one patch, we should adjust s before doing this.
             if self._single_patch is not None:
-                if patch_col != '0':
-                    data[patch_col] = reader.read(patch_col, s, ext=patch_ext)
-                    all_cols.remove(patch_col)
-                    set_patch(data, patch_col)
+                if patch_col != '0' or patch_eval is not None:
+                    if patch_col != '0':
+                        data[patch_col] = reader.read(patch_col, s, ext=patch_ext)
+                        all_cols.remove(patch_col)
+                    if patch_eval is not None:
+                        for ext in all_exts:
+                            for c in all_cols + extra_cols:
+                                if (c in patch_eval and c in reader.names(ext=ext)
+                                        and col_by_ext.get(c, ext) == ext):
+                                    data[c] = reader.read(c, s, ext=ext)
+                    set_patch(data, patch_col, patch_eval)
+                    patch_col = '0'
+                    patch_eval = None
                 elif self._centers is not None:
                     pos_cols = [x_col, y_col, z_col, ra_col, dec_col, r_col]
                     pos_cols = [c for c in pos_cols if c != '0']
@@ -2146,7 +2158,7 @@ class Catalog(object):
                     x_eval, y_eval, z_eval, ra_eval, dec_eval, r_eval)
 
             # Set patch
-            set_patch(data, patch_col)
+            set_patch(data, patch_col, patch_eval)
 
             # Set w
             if w_col != '0' or w_eval is not None:
-- 
2.43.0


From dc918b450e8da54145a5110babbe661126015664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:00 +0000
Subject: [PATCH 46/62] fix: parameters with restricted values may be given as
 lists

A list of units or file types, which the declarations allow, raised an AttributeError.
---
 treecorr/config.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index cadaf84..a4a9fe4 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -212,6 +212,26 @@ def parse(value, value_type, name):
         raise ValueError("Could not parse {}={} as type {}".format(name, value, value_type))
 
 
+def _check_valid(value, value_type, valid_values, key):
+    # Check that value is one of valid_values, and return the one that it matches.
+    if value is None:
+        return None
+    elif value_type is str:
+        matches = [ v for v in valid_values if value == v ]
+        if len(matches) == 0:
+            # Allow the string to be longer.
+            # e.g. degrees is valid if 'deg' is in valid_values.
+            matches = [v for v in valid_values if isinstance(v,str) and value.startswith(v)]
+        if len(matches) != 1:
+            raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
+                key, value, str(valid_values)))
+        return matches[0]
+    else:
+        if value not in valid_values:
+            raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
+                key, value, str(valid_values)))
+        return value
+
 def check_config(config, params, aliases=None, logger=None):
     """Check (and update) a config dict to conform to the given parameter rules.
     The params dict has an entry for each valid config parameter whose value is a tuple
@@ -263,21 +283,11 @@ def check_config(config, params, aliases=None, logger=None):
                 continue
 
         # If limited allowed value, check that this is one of them.
-        if valid_values is not None and value is not None:
-            if value_type is str:
-                matches = [ v for v in valid_values if value == v ]
-                if len(matches) == 0:
-                    # Allow the string to be longer.
-                    # e.g. degrees is valid if 'deg' is in valid_values.
-                    matches = [v for v in valid_values if isinstance(v,str) and value.startswith(v)]
-                if len(matches) != 1:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
-                value = matches[0]
+        if valid_values is not None:
+            if isinstance(value, list):
+                value = [_check_valid(v, value_type, valid_values, key) for v in value]
             else:
-                if value not in valid_values:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
+                value = _check_valid(value, value_type, valid_values, key)
 
         # Write it back to the dict with the right type
         config[key] = value
-- 
2.43.0


From 2b9aa5ee4b8af5abcf277c0deb105c6ca7ff4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 47/62] fix: Catalog accepts the num_threads parameter it
 documents

It was read from the configuration, but not among the valid parameters.
---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index e47460a..adf441d 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -737,6 +737,8 @@ class Catalog(object):
         'log_file' : (str, False, None, None,
                 'If desired, an output file for the logging output.',
                 'The default is to write the output to stdout.'),
+        'num_threads' : (int, False, None, None,
+                'How many threads should be used. num_threads <= 0 means auto based on num cores.'),
         'split_method' : (str, False, 'mean', ['mean', 'median', 'middle', 'random'],
                 'Which method to use for splitting cells.'),
         'cat_precision' : (int, False, 16, None,
-- 
2.43.0


From a43430744ba4bb5c0e5a9e1b010dba0aa42f210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 48/62] fix: a failed write leaves no temporary settings behind

NNCorrelation.write and NNNCorrelation.write keep rr, dr, rd as attributes
while writing, and only reset them when the write succeeds.  After an error,
later files are written with columns for these.
---
 treecorr/nncorrelation.py  | 36 +++++++++++++++++++-----------------
 treecorr/nnncorrelation.py | 36 +++++++++++++++++++-----------------
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 00532ee..65daa72 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -582,23 +582,25 @@ class NNCorrelation(Corr2):
         self._write_dr = dr
         self._write_rd = rd
         self._write_patch_results = write_patch_results
-        with make_writer(file_name, precision, file_type, self.logger) as writer:
-            self._write(writer, None, write_patch_results, write_cov=write_cov, zero_tot=True)
-            if write_patch_results:
-                # Also write out rr, dr, rd, so covariances can be computed on round trip.
-                rr = rr or self._rr
-                dr = dr or self._dr
-                rd = rd or self._rd
-                if rr:
-                    rr._write(writer, '_rr', write_patch_results, zero_tot=True)
-                if dr:
-                    dr._write(writer, '_dr', write_patch_results, zero_tot=True)
-                if rd:
-                    rd._write(writer, '_rd', write_patch_results, zero_tot=True)
-        self._write_rr = None
-        self._write_dr = None
-        self._write_rd = None
-        self._write_patch_results = False
+        try:
+            with make_writer(file_name, precision, file_type, self.logger) as writer:
+                self._write(writer, None, write_patch_results, write_cov=write_cov, zero_tot=True)
+                if write_patch_results:
+                    # Also write out rr, dr, rd, so covariances can be computed on round trip.
+                    rr = rr or self._rr
+                    dr = dr or self._dr
+                    rd = rd or self._rd
+                    if rr:
+                        rr._write(writer, '_rr', write_patch_results, zero_tot=True)
+                    if dr:
+                        dr._write(writer, '_dr', write_patch_results, zero_tot=True)
+                    if rd:
+                        rd._write(writer, '_rd', write_patch_results, zero_tot=True)
+        finally:
+            self._write_rr = None
+            self._write_dr = None
+            self._write_rd = None
+            self._write_patch_results = False
 
     @property
     def _write_col_names(self):
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index c774626..761a8b7 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -789,23 +789,25 @@ class NNNCorrelation(Corr3):
         self._write_drr = drr
         self._write_rdd = rdd
         self._write_patch_results = write_patch_results
-        with make_writer(file_name, precision, file_type, self.logger) as writer:
-            self._write(writer, None, write_patch_results, write_cov=write_cov, zero_tot=True)
-            if write_patch_results:
-                # Also write out rr, dr, rd, so covariances can be computed on round trip.
-                rrr = rrr or self._rrr
-                drr = drr or self._drr
-                rdd = rdd or self._rdd
-                if rrr:
-                    rrr._write(writer, '_rrr', write_patch_results, zero_tot=True)
-                if drr:
-                    drr._write(writer, '_drr', write_patch_results, zero_tot=True)
-                if rdd:
-                    rdd._write(writer, '_rdd', write_patch_results, zero_tot=True)
-        self._write_rrr = None
-        self._write_drr = None
-        self._write_rdd = None
-        self._write_patch_results = False
+        try:
+            with make_writer(file_name, precision, file_type, self.logger) as writer:
+                self._write(writer, None, write_patch_results, write_cov=write_cov, zero_tot=True)
+                if write_patch_results:
+                    # Also write out rr, dr, rd, so covariances can be computed on round trip.
+                    rrr = rrr or self._rrr
+                    drr = drr or self._drr
+                    rdd = rdd or self._rdd
+                    if rrr:
+                        rrr._write(writer, '_rrr', write_patch_results, zero_tot=True)
+                    if drr:
+                        drr._write(writer, '_drr', write_patch_results, zero_tot=True)
+                    if rdd:
+                        rdd._write(writer, '_rdd', write_patch_results, zero_tot=True)
+        finally:
+            self._write_rrr = None
+            self._write_drr = None
+            self._write_rdd = None
+            self._write_patch_results = False
 
     @property
     def _write_col_names(self):
-- 
2.43.0


From a057f200c540134e9185b02d9a44f29309f3d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 49/62] fix: kz_file_name requires the k column of the first
 catalog

isKColRequired knew about kv, kg, kt and kq, but not kz, so a missing k_col
was skipped with a warning, and the driver failed later.
---
 treecorr/catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index adf441d..e3714de 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -3504,6 +3504,7 @@ def isKColRequired(config, num):
 
     """
     return config and ('kk_file_name' in config
+                       or (num==0 and 'kz_file_name' in config)
                        or (num==0 and 'kv_file_name' in config)
                        or (num==0 and 'kg_file_name' in config)
                        or (num==0 and 'kt_file_name' in config)
-- 
2.43.0


From f8c5c52b514782ee1a6a9d8b27d7f33d7c22c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 50/62] fix: norm_file_name without randoms is refused before
 computing

The driver ran the NG, GG and DD correlations and then failed with an
AttributeError when processing the missing randoms.
---
 treecorr/exec_corr2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/exec_corr2.py b/treecorr/exec_corr2.py
index f197c74..759c143 100644
--- a/treecorr/exec_corr2.py
+++ b/treecorr/exec_corr2.py
@@ -276,6 +276,8 @@ def corr2(config, logger=None):
     if 'ng_file_name' in config or 'nm_file_name' in config or 'norm_file_name' in config:
         if cat2 is None:
             raise TypeError("file_name2 is required for ng correlation")
+        if 'norm_file_name' in config and rand1 is None:
+            raise TypeError("rand_file_name is required for norm_file_name")
         logger.warning("Performing NG calculations...")
         ng = NGCorrelation(config, logger=logger)
         ng.process(cat1,cat2)
-- 
2.43.0


From c4fb4bd614d32b7b1d86e1cca109d21273ce150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 51/62] fix: Catalog refuses z with ra,dec and a catalog
 without positions

---
 treecorr/catalog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index e3714de..b90cd2e 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -914,6 +914,10 @@ class Catalog(object):
             if ra is not None or dec is not None:
                 if ra is None or dec is None:
                     raise TypeError("ra and dec must both be provided")
+                if z is not None and x is None:
+                    raise TypeError("z may not be provided with ra,dec")
+            if x is None and ra is None:
+                raise TypeError("Either x,y or ra,dec must be provided")
             if z1 is not None or z2 is not None:
                 if z1 is None or z2 is None:
                     raise TypeError("z1 and z2 must both be provided")
-- 
2.43.0


From 0dd65f4ba43bc03c2560f66c82f524b9599be0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 52/62] fix: check all pairs of columns that a file catalog
 needs before reading

---
 treecorr/catalog.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index b90cd2e..2da6be4 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1868,11 +1868,11 @@ class Catalog(object):
                                 k_col, file_name, num) +
                             "because it is invalid, but unneeded.")
 
-            if z1_col != '0':
+            if z1_col != '0' or z2_col != '0':
                 z1_ext = get_from_list(self.config, 'z1_ext', num, str, ext)
                 z2_ext = get_from_list(self.config, 'z2_ext', num, str, ext)
-                if (z1_col not in reader.names(ext=z1_ext) or
-                    z2_col not in reader.names(ext=z2_ext)):
+                if ((z1_col != '0' and z1_col not in reader.names(ext=z1_ext)) or
+                    (z2_col != '0' and z2_col not in reader.names(ext=z2_ext))):
                     if isZColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "z1_col, z2_col=(%s, %s) are invalid for file %s"%(
@@ -1883,11 +1883,11 @@ class Catalog(object):
                                 z1_col, z2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if v1_col != '0':
+            if v1_col != '0' or v2_col != '0':
                 v1_ext = get_from_list(self.config, 'v1_ext', num, str, ext)
                 v2_ext = get_from_list(self.config, 'v2_ext', num, str, ext)
-                if (v1_col not in reader.names(ext=v1_ext) or
-                    v2_col not in reader.names(ext=v2_ext)):
+                if ((v1_col != '0' and v1_col not in reader.names(ext=v1_ext)) or
+                    (v2_col != '0' and v2_col not in reader.names(ext=v2_ext))):
                     if isVColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "v1_col, v2_col=(%s, %s) are invalid for file %s"%(
@@ -1898,11 +1898,11 @@ class Catalog(object):
                                 v1_col, v2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if g1_col != '0':
+            if g1_col != '0' or g2_col != '0':
                 g1_ext = get_from_list(self.config, 'g1_ext', num, str, ext)
                 g2_ext = get_from_list(self.config, 'g2_ext', num, str, ext)
-                if (g1_col not in reader.names(ext=g1_ext) or
-                    g2_col not in reader.names(ext=g2_ext)):
+                if ((g1_col != '0' and g1_col not in reader.names(ext=g1_ext)) or
+                    (g2_col != '0' and g2_col not in reader.names(ext=g2_ext))):
                     if isGColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "g1_col, g2_col=(%s, %s) are invalid for file %s"%(
@@ -1913,11 +1913,11 @@ class Catalog(object):
                                 g1_col, g2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if t1_col != '0':
+            if t1_col != '0' or t2_col != '0':
                 t1_ext = get_from_list(self.config, 't1_ext', num, str, ext)
                 t2_ext = get_from_list(self.config, 't2_ext', num, str, ext)
-                if (t1_col not in reader.names(ext=t1_ext) or
-                    t2_col not in reader.names(ext=t2_ext)):
+                if ((t1_col != '0' and t1_col not in reader.names(ext=t1_ext)) or
+                    (t2_col != '0' and t2_col not in reader.names(ext=t2_ext))):
                     if isTColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "t1_col, t2_col=(%s, %s) are invalid for file %s"%(
@@ -1928,11 +1928,11 @@ class Catalog(object):
                                 t1_col, t2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if q1_col != '0':
+            if q1_col != '0' or q2_col != '0':
                 q1_ext = get_from_list(self.config, 'q1_ext', num, str, ext)
                 q2_ext = get_from_list(self.config, 'q2_ext', num, str, ext)
-                if (q1_col not in reader.names(ext=q1_ext) or
-                    q2_col not in reader.names(ext=q2_ext)):
+                if ((q1_col != '0' and q1_col not in reader.names(ext=q1_ext)) or
+                    (q2_col != '0' and q2_col not in reader.names(ext=q2_ext))):
                     if isQColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "q1_col, q2_col=(%s, %s) are invalid for file %s"%(
-- 
2.43.0


From c71fbde2cc53e40c9db4bba9c9fe692effef70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 53/62] fix: adding correlations with different bin_type is
 refused

---
 treecorr/corr2base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index d4d850c..29af151 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1226,7 +1226,8 @@ class Corr2(object):
         """
         if not isinstance(other, self.__class__):
             raise TypeError(f"Can only add another {self._cls} object")
-        if not (self._nbins == other._nbins and
+        if not (self.bin_type == other.bin_type and
+                self._nbins == other._nbins and
                 self.min_sep == other.min_sep and
                 self.max_sep == other.max_sep):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
-- 
2.43.0


From 49be7dbda9dcaa665f7ac9cb03c38a70d196312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 54/62] fix: non-positive binning parameters are refused at
 construction

---
 treecorr/corr2base.py | 13 +++++++++++++
 treecorr/corr3base.py |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 29af151..84ccf34 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -376,6 +376,17 @@ class Corr2(object):
             self._ro.bin_size = float(self.config['bin_size'])
             self._ro.min_sep = None
 
+        if self.nbins is not None and self.nbins <= 0:
+            raise ValueError("nbins must be positive")
+        if self.bin_size is not None and not self.bin_size > 0:
+            raise ValueError("bin_size must be positive")
+        if self.max_sep is not None and not self.max_sep > 0:
+            raise ValueError("max_sep must be positive")
+        if self.bin_type == 'Log' and self.min_sep is not None and not self.min_sep > 0:
+            raise ValueError("min_sep must be positive for bin_type=Log")
+        if self.min_sep is not None and self.min_sep < 0:
+            raise ValueError("min_sep must not be negative")
+
         if self.bin_type == 'Log':
             if self.nbins is None:
                 self._ro.nbins = int(math.ceil(math.log(self.max_sep/self.min_sep)/self.bin_size))
@@ -411,6 +422,8 @@ class Corr2(object):
                 self._ro.max_sep = self.min_sep + self.nbins*self.bin_size
             else:
                 self._ro.min_sep = self.max_sep - self.nbins*self.bin_size
+            if self.min_sep < -1.e-10*self.max_sep:  # Allow for rounding errors
+                raise ValueError("min_sep must not be negative")
 
             self._ro.rnom = np.linspace(self.min_sep, self.max_sep, self.nbins, endpoint=False,
                                           dtype=float)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index d9e3df6..ca034d5 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -410,6 +410,11 @@ class Corr3(object):
         self._ro.sep_units = self.config.get('sep_units','')
         self._ro._sep_units = get(self.config,'sep_units',str,'radians')
         self._ro._log_sep_units = math.log(self._sep_units)
+        for key in ['min_sep', 'max_sep', 'nbins', 'bin_size',
+                    'nubins', 'ubin_size', 'nvbins', 'vbin_size',
+                    'nphi_bins', 'phi_bin_size']:
+            if self.config.get(key, None) is not None and not float(self.config[key]) > 0:
+                raise ValueError("%s must be positive"%key)
         if self.config.get('nbins', None) is None:
             if self.config.get('max_sep', None) is None:
                 raise TypeError("Missing required parameter max_sep")
-- 
2.43.0


From e10b6db44536ee1a035e7e464f92713ad3965e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 55/62] fix: LogRUV min_v implied by nvbins and vbin_size is
 limited by 0

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index ca034d5..a0978ba 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -519,7 +519,7 @@ class Corr3(object):
                     if 'max_v' not in self.config:
                         self._ro.max_v = min(self.min_v + self.nvbins * self.vbin_size, 1.)
                     else:  # min_v not in config
-                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, -1.)
+                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, 0.)
             # Adjust vbin_size given the other values
             self._ro.vbin_size = (self.max_v-self.min_v)/self.nvbins
             self.logger.info("v: nbins = %d, min,max = %g..%g, bin_size = %g",
-- 
2.43.0


From 1084a2c36f72138aa85ed0118fe7986b55959f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 56/62] fix: mismatched patches are refused before replacing
 the results

---
 treecorr/nkcorrelation.py  |  6 +++---
 treecorr/nncorrelation.py  | 27 ++++++++++++++-------------
 treecorr/nnncorrelation.py | 25 +++++++++++++------------
 treecorr/nzcorrelation.py  |  6 +++---
 4 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 36f196f..be52308 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -215,14 +215,14 @@ class NKCorrelation(Corr2):
                 - varxi = array of variance estimates of :math:`\xi(r)`
         """
         if rk is not None:
+            if rk.npatch1 not in (1,self.npatch1) or rk.npatch2 != self.npatch2:
+                raise RuntimeError("RK must be run with the same patches as DK")
+
             # Make sure this is set while self._cov is still that of raw_xi.
             self.raw_varxi
             self.xi = self.raw_xi - rk.xi
             self._rk = rk
 
-            if rk.npatch1 not in (1,self.npatch1) or rk.npatch2 != self.npatch2:
-                raise RuntimeError("RK must be run with the same patches as DK")
-
             if len(self.results) > 0:
                 # If there are any rk patch pairs that aren't in results (e.g. due to different
                 # edge effects among the various pairs in consideration), then we need to add
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 65daa72..8838b20 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -361,6 +361,20 @@ class NNCorrelation(Corr2):
                 raise ValueError("rd has tot=0.")
             rdf = self.tot / rd.tot
 
+        if len(self.results) > 0:
+            # Check that rr,dr,rd use the same patches as dd
+            if rr.npatch1 != 1 and rr.npatch2 != 1:
+                if rr.npatch1 != self.npatch1 or rr.npatch2 != self.npatch2:
+                    raise RuntimeError("If using patches, RR must be run with the same patches "
+                                       "as DD")
+
+            if dr is not None and (len(dr.results) == 0 or dr.npatch1 != self.npatch1 or
+                                   dr.npatch2 not in (self.npatch2, 1)):
+                raise RuntimeError("DR must be run with the same patches as DD")
+            if rd is not None and (len(rd.results) == 0 or rd.npatch2 != self.npatch2 or
+                                   rd.npatch1 not in (self.npatch1, 1)):
+                raise RuntimeError("RD must be run with the same patches as DD")
+
         # Calculate xi based on which randoms are provided.
         denom = rr.weight * rrf
         if dr is None and rd is None:
@@ -416,19 +430,6 @@ class NNCorrelation(Corr2):
         self._rd = rd
 
         if len(self.results) > 0:
-            # Check that rr,dr,rd use the same patches as dd
-            if rr.npatch1 != 1 and rr.npatch2 != 1:
-                if rr.npatch1 != self.npatch1 or rr.npatch2 != self.npatch2:
-                    raise RuntimeError("If using patches, RR must be run with the same patches "
-                                       "as DD")
-
-            if dr is not None and (len(dr.results) == 0 or dr.npatch1 != self.npatch1 or
-                                   dr.npatch2 not in (self.npatch2, 1)):
-                raise RuntimeError("DR must be run with the same patches as DD")
-            if rd is not None and (len(rd.results) == 0 or rd.npatch2 != self.npatch2 or
-                                   rd.npatch1 not in (self.npatch1, 1)):
-                raise RuntimeError("RD must be run with the same patches as DD")
-
             # If there are any rr,dr,rd patch pairs that aren't in results (because dr is a cross
             # correlation, and dd,rr may be auto-correlations, or because the d catalogs has some
             # patches with no items), then we need to add some dummy results to make sure all the
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 761a8b7..2910b05 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -526,6 +526,19 @@ class NNNCorrelation(Corr3):
                 raise ValueError("rdd has tot=0.")
             rddf = self.tot / rdd.tot
 
+        if len(self.results) > 0:
+            # Check that all use the same patches as ddd
+            if rrr.npatch1 != 1:
+                if rrr.npatch1 != self.npatch1:
+                    raise RuntimeError("If using patches, RRR must be run with the same patches "
+                                       "as DDD")
+            if drr is not None and (len(drr.results) == 0 or drr.npatch1 != self.npatch1
+                                    or drr.npatch2 not in (self.npatch2, 1)):
+                raise RuntimeError("DRR must be run with the same patches as DDD")
+            if rdd is not None and (len(rdd.results) == 0 or rdd.npatch2 != self.npatch2
+                                    or rdd.npatch1 not in (self.npatch1, 1)):
+                raise RuntimeError("RDD must be run with the same patches as DDD")
+
         # Calculate zeta based on which randoms are provided.
         denom = rrr.weight * rrrf
         if rdd is None:
@@ -565,18 +578,6 @@ class NNNCorrelation(Corr3):
         self._rdd = rdd
 
         if len(self.results) > 0:
-            # Check that all use the same patches as ddd
-            if rrr.npatch1 != 1:
-                if rrr.npatch1 != self.npatch1:
-                    raise RuntimeError("If using patches, RRR must be run with the same patches "
-                                       "as DDD")
-            if drr is not None and (len(drr.results) == 0 or drr.npatch1 != self.npatch1
-                                    or drr.npatch2 not in (self.npatch2, 1)):
-                raise RuntimeError("DRR must be run with the same patches as DDD")
-            if rdd is not None and (len(rdd.results) == 0 or rdd.npatch2 != self.npatch2
-                                    or rdd.npatch1 not in (self.npatch1, 1)):
-                raise RuntimeError("RDD must be run with the same patches as DDD")
-
             # If there are any rrr,drr,rdd patch sets that aren't in results, then we need to add
             # some dummy results to make sure all the right ijk "pair"s are computed when we make
             # the vectors for the covariance matrix.
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index e681e87..2aee3c5 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -116,15 +116,15 @@ class BaseNZCorrelation(Corr2):
 
     def calculateXi(self, rz=None):
         if rz is not None:
+            if rz.npatch1 not in (1,self.npatch1) or rz.npatch2 != self.npatch2:
+                raise RuntimeError(f"R{self._letter2} must be run with the same patches as D{self._letter2}")
+
             # Make sure this is set while self._cov is still that of raw_xi.
             self.raw_varxi
             self.xi = self.raw_xi - rz.xi
             self.xi_im = self.raw_xi_im - rz.xi_im
             self._rz = rz
 
-            if rz.npatch1 not in (1,self.npatch1) or rz.npatch2 != self.npatch2:
-                raise RuntimeError(f"R{self._letter2} must be run with the same patches as D{self._letter2}")
-
             if len(self.results) > 0:
                 # If there are any rz patch pairs that aren't in results (e.g. due to different
                 # edge effects among the various pairs in consideration), then we need to add
-- 
2.43.0


From aded084eb2b8072fd938626010644cff2e66b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 57/62] fix: invalid process arguments are refused before
 clearing the results

---
 treecorr/corr2base.py | 8 ++++----
 treecorr/corr3base.py | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 84ccf34..8a7a8f4 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1141,15 +1141,15 @@ class Corr2(object):
 
         if self._letter1 != self._letter2 and cat2 is None:
             raise TypeError(f"cat2 is required for {self._cls}.process")
+        if patch_method not in ['local', 'global']:
+            raise ValueError("Invalid patch_method %s"%patch_method)
+        local = patch_method == 'local'
+
         if initialize:
             self.clear()
             self._processed_cats1.clear()
             self._processed_cats2.clear()
 
-        if patch_method not in ['local', 'global']:
-            raise ValueError("Invalid patch_method %s"%patch_method)
-        local = patch_method == 'local'
-
         if not isinstance(cat1,list):
             cat1 = cat1.get_patches(low_mem=low_mem)
         if cat2 is not None and not isinstance(cat2,list):
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index a0978ba..5901e75 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1793,12 +1793,13 @@ class Corr3(object):
         if cat3 is not None and not isinstance(cat3,list):
             cat3 = cat3.get_patches(low_mem=low_mem)
 
+        if cat2 is None and cat3 is not None:
+            raise ValueError("For two catalog case, use cat1,cat2, not cat1,cat3")
+
         if initialize:
             self.clear()
 
         if cat2 is None:
-            if cat3 is not None:
-                raise ValueError("For two catalog case, use cat1,cat2, not cat1,cat3")
             self._process_all_auto(cat1, metric, num_threads, comm, low_mem, local)
         elif cat3 is None:
             self._process_all_cross12(cat1, cat2, metric, ordered, num_threads, comm, low_mem,
-- 
2.43.0


From f5185ae788ee9543c0147dbdf916c6072b910765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 58/62] fix: toSAS refuses a mismatched target before clearing
 it

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 5901e75..3a4ce7c 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2004,9 +2004,9 @@ class Corr3(object):
             if not isinstance(target, self.__class__):
                 raise ValueError(f"target must be an instance of {self.__class__}")
             sas = target
-            sas.clear()
         if not np.array_equal(sas.rnom1d, self.rnom1d):
             raise ValueError("toSAS cannot change sep parameters")
+        sas.clear()
 
         # Copy these over
         sas.meand2[:,:,:] = self.meand2[:,:,0][:,:,None]
-- 
2.43.0


From 6164dab315ce2bcb1bebbdfe2746106e05dff964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 59/62] fix: writeNorm leaves the given dd unchanged

---
 treecorr/ngcorrelation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/ngcorrelation.py b/treecorr/ngcorrelation.py
index 38270b5..39722fd 100644
--- a/treecorr/ngcorrelation.py
+++ b/treecorr/ngcorrelation.py
@@ -396,7 +396,8 @@ class NGCorrelation(BaseNZCorrelation):
 
         nmap, nmx, varnmap = self.calculateNMap(R=R, rg=rg, m2_uform=m2_uform)
         mapsq, mapsq_im, mxsq, mxsq_im, varmapsq = gg.calculateMapSq(R=R, m2_uform=m2_uform)
-        nsq, varnsq = dd.calculateNapSq(R=R, rr=rr, dr=dr, m2_uform=m2_uform)
+        # Work on a copy of dd, since this calculates (or recalculates) its xi.
+        nsq, varnsq = dd.copy().calculateNapSq(R=R, rr=rr, dr=dr, m2_uform=m2_uform)
 
         nmnorm = nmap**2 / (nsq * mapsq)
         varnmnorm = nmnorm**2 * (4. * varnmap / nmap**2 + varnsq / nsq**2 + varmapsq / mapsq**2)
-- 
2.43.0


From a3fbe3c3d0c6be9b1689bd7c3d41e64dd9d11170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 60/62] fix: Arc metric with 3d coordinates distinguishes theta
 from pi-theta

---
 include/Metric.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 95bdea6..8c9248a 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -647,8 +647,9 @@ struct MetricHelper<Arc, P>
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
         // sin(theta) = |p1 x p2| / |p1| |p2|
-        double sintheta = p1.cross(p2).norm() / (p1.norm() * p2.norm());
-        double theta = std::asin(sintheta);
+        // cos(theta) = p1 . p2 / |p1| |p2|
+        // Use both, since sin(theta) alone cannot distinguish theta from pi-theta.
+        double theta = std::atan2(p1.cross(p2).norm(), p1.dot(p2));
         return theta;
     }
 
-- 
2.43.0


From 6b6163147b9fb4b55a00eae761b3e39aeda1b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:44 +0000
Subject: [PATCH 61/62] fix: TwoD bins kept from the splitting decision also
 keep the separation

singleBin set the bin number and log(r) but not r, so the pairs of such
cells were added to meanr with r=0.
---
 include/BinType.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BinType.h b/include/BinType.h
index 9a480e1..6932477 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -368,6 +368,7 @@ struct BinTypeHelper<TwoD>
 
         int n = int(2*maxsep / binsize+0.5);
         k = j*n + i;
+        r = sqrt(rsq);  // If we set k, then r and logr need to be set too.
         logr = 0.5*std::log(rsq);
         xdbg<<"Single bin returning true: "<<dx<<','<<dy<<','<<s1ps2<<','<<binsize<<std::endl;
         return true;
-- 
2.43.0


From f477240edd2247fbd15214c6b233bc0df1a13418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:44 +0000
Subject: [PATCH 62/62] fix: multipole sums keep a bin number rounded past the
 last bin inside

A separation just below max_sep can get the bin number nbins, which wrote
past the end of the scratch arrays.
---
 src/Corr3.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index fc1d9cc..ade0d78 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1180,6 +1180,8 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
                     logr = log(r);
                     k = BinTypeHelper<B>::calculateBinK(p1, p2, r, logr, _binsize,
                                                         _minsep, _maxsep, _logminsep);
+                    // As in Corr2, rounding can (rarely) put k past the last bin.
+                    if (k == _nbins) --k;
                 }
                 calculateGn(c1, *c2, rsq, r, logr, k, mp);
             }
-- 
2.43.0

