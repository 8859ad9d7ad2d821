From 7ac402c1afc01932e1f4474e2b2265f140882941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:13 +0000
Subject: [PATCH 01/24] fix: downcoef raises instead of looping forever for one
 sample in [anti]reflect mode

---
 pywt/_extensions/_dwt.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 0fba429..c2f6a2c 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -442,6 +442,8 @@ cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int
         output_len = common.dwt_buffer_length(data.size, wavelet.dec_len, mode)
         if output_len < 1:
             raise RuntimeError("Invalid output length.")
+        if data_size == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
+            raise ValueError("Input data length must be greater than 1 for [anti]reflect mode.")
 
         # To mirror multi-level wavelet decomposition behaviour, when detail
         # coefficients are requested, the dec_d variant is only called at the
-- 
2.43.0


From d1e7ff1d71f137cef6191d6c10a2bda91f9af820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:54 +0000
Subject: [PATCH 02/24] fix: soft and garrote thresholding return 0 instead of
 nan where value/|x| is 0/0

---
 pywt/_thresholding.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 33af65b..545b340 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -17,10 +17,12 @@ def soft(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
         thresholded = (1 - value/magnitude)
         thresholded.clip(min=0, max=None, out=thresholded)
+        # 0/0 is nan, but zeros stay zero for any threshold
+        thresholded = np.where(magnitude == 0, 0, thresholded)
         thresholded = data * thresholded
 
     if substitute == 0:
@@ -35,10 +37,13 @@ def nn_garrote(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value**2/magnitude**2)
+        # (the ratio is squared, since the squares may both underflow to zero)
+        thresholded = (1 - (value/magnitude)**2)
         thresholded.clip(min=0, max=None, out=thresholded)
+        # 0/0 is nan, but zeros stay zero for any threshold
+        thresholded = np.where(magnitude == 0, 0, thresholded)
         thresholded = data * thresholded
 
     if substitute == 0:
-- 
2.43.0


From 89e55e7e52811ae2d57a3061743586d7f3347825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:54 +0000
Subject: [PATCH 03/24] fix: threshold_firm keeps values above value_high also
 when only the first one is

---
 pywt/_thresholding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 545b340..749b279 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -248,7 +248,7 @@ def threshold_firm(data, value_low, value_high):
         thresholded = data * thresholded
 
     # restore hard-thresholding behavior for values > value_high
-    large_vals = np.where(magnitude > value_high)
-    if np.any(large_vals[0]):
+    large_vals = magnitude > value_high
+    if np.any(large_vals):
         thresholded[large_vals] = data[large_vals]
     return thresholded
-- 
2.43.0


From b2ee4f0ece97244f510573b7365120717f37a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:54 +0000
Subject: [PATCH 04/24] fix: threshold_firm no longer returns nan at 0 for
 value_low=0, at ties, or for value_high=inf

---
 pywt/_thresholding.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 749b279..74caf3c 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -240,11 +240,15 @@ def threshold_firm(data, value_low, value_high):
 
     data = np.asarray(data)
     magnitude = np.absolute(data)
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
-        vdiff = value_high - value_low
-        thresholded = value_high * (1 - value_low/magnitude) / vdiff
+        thresholded = 1 - value_low/magnitude
+        if value_high != np.inf:
+            vdiff = value_high - value_low
+            thresholded = value_high * thresholded / vdiff
         thresholded.clip(min=0, max=None, out=thresholded)
+        # values up to value_low are zero (this also replaces nan from 0/0)
+        thresholded[magnitude <= value_low] = 0
         thresholded = data * thresholded
 
     # restore hard-thresholding behavior for values > value_high
-- 
2.43.0


From 421f39c511b423f4bb16d2f562878cd1b699a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:14 +0000
Subject: [PATCH 05/24] fix: imra2 and imran no longer add into the caller's
 first component

---
 pywt/_mra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index a41431e..17d7d6f 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -280,7 +280,7 @@ def imra2(mra_coeffs):
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
-    rec = mra_coeffs[0]
+    rec = mra_coeffs[0].copy()
     for j in range(1, len(mra_coeffs)):
         for n in range(3):
             rec += mra_coeffs[j][n]
@@ -427,7 +427,7 @@ def imran(mra_coeffs):
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
-    rec = mra_coeffs[0]
+    rec = mra_coeffs[0].copy()
     for j in range(1, len(mra_coeffs)):
         for k, v in mra_coeffs[j].items():
             rec += v
-- 
2.43.0


From cbdfd7704ddc046446f9d752a7a0781d73bef2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:23 +0000
Subject: [PATCH 06/24] fix: wavedecn_shapes uses the same default level as
 wavedecn for per-axis wavelets

---
 pywt/_multilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 0e5ca9c..1529cc2 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -926,7 +926,7 @@ def wavedecn_shapes(shape, wavelet, mode='symmetric', level=None, axes=None):
     modes = _modes_per_axis(mode, axes)
     dec_lengths = [w.dec_len for w in wavelets]
 
-    level = _check_level(min(axes_shapes), max(dec_lengths), level)
+    level = _check_level(axes_shapes, dec_lengths, level)
 
     shapes = []
     for i in range(level):
-- 
2.43.0


From bcbb23c1bbeef242eb39534ce342077fb73a74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:23 +0000
Subject: [PATCH 07/24] fix: iswtn no longer edits the caller's dicts (they
 stayed edited if it raised)

---
 pywt/_swt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f64e959..db31912 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -768,9 +768,9 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     for j in range(num_levels):
         step_size = int(pow(2, num_levels-j-1))
         last_index = step_size
-        if not trim_approx:
-            a = coeffs[j].pop('a'*ndim_transform)  # will restore later
-        details = coeffs[j]
+        # the approximation coefficients (if any) are not needed here
+        details = {k: v for k, v in coeffs[j].items()
+                   if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
             [dt, ] + [v.dtype for v in details.values()]))
@@ -820,6 +820,4 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                 output[tuple(indices)] += x
                 ntransforms += 1
             output[tuple(indices)] /= ntransforms  # normalize
-        if not trim_approx:
-            coeffs[j]['a'*ndim_transform] = a  # restore approx coeffs to dict
     return output
-- 
2.43.0


From 1830e0c9076f1d60c1f5ebbb2b2b1b8fcbc1f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:23 +0000
Subject: [PATCH 08/24] fix: dwtn and idwtn reject an axis outside the array
 before writing to its shape

---
 pywt/_extensions/_dwt.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index c2f6a2c..81cc55d 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -90,6 +90,8 @@ cpdef dwt_axis(np.ndarray data, Wavelet wavelet, MODE mode, unsigned int axis=0)
     cdef size_t[::1] input_shape, output_shape
     cdef int retval = -5
 
+    if axis >= <unsigned int> data.ndim:
+        raise ValueError("Axis greater than data dimensions")
 
     if data.shape[axis] == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
         raise ValueError("Input data length must be greater than 1 for [anti]reflect mode along the transformed axis.")
@@ -286,6 +288,9 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     else:
         return None
 
+    if axis >= <unsigned int> input_shape.shape[0]:
+        raise ValueError("Axis greater than coefficient dimensions")
+
     output_shape = input_shape.copy()
     output_shape[axis] = common.idwt_buffer_length(input_shape[axis],
                                                    wavelet.rec_len, mode)
-- 
2.43.0


From 536e4888a34d921804e6e98d88f28713a51fcfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:52 +0000
Subject: [PATCH 09/24] fix: WaveletPacketND reconstructs data and nodes of odd
 size

---
 pywt/_wavelet_packets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 57ebcb9..5ebd685 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -675,6 +675,9 @@ class NodeND(BaseNode):
             )
         else:
             rec = idwtn(coeffs, self.wavelet, self.mode, axes=self.axes)
+            if self._data_shape is not None and (
+                    rec.shape != self._data_shape):
+                rec = rec[tuple([slice(sz) for sz in self._data_shape])]
             if update:
                 self.data = rec
             return rec
@@ -741,7 +744,7 @@ class WaveletPacket(Node):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -867,7 +870,7 @@ class WaveletPacket2D(Node2D):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -1015,7 +1018,7 @@ class WaveletPacketND(NodeND):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
-- 
2.43.0


From 5ded2839afaecc35ed98004da0be4e595662c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:52 +0000
Subject: [PATCH 10/24] fix: pickling or copying a WaveletPacket keeps the
 transformed axes

---
 pywt/_wavelet_packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 5ebd685..d044d81 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -729,7 +729,7 @@ class WaveletPacket(Node):
 
     def __reduce__(self):
         return (WaveletPacket,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel, self.axes))
 
     def reconstruct(self, update=True):
         """
@@ -855,7 +855,7 @@ class WaveletPacket2D(Node2D):
 
     def __reduce__(self):
         return (WaveletPacket2D,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel, self.axes))
 
     def reconstruct(self, update=True):
         """
-- 
2.43.0


From be55b984e6b0e48f20c8e24ed483f5c237cf926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:52 +0000
Subject: [PATCH 11/24] fix: assigning a node to a wavelet packet path keeps
 complex and single precision data

---
 pywt/_wavelet_packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index d044d81..345c774 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -299,7 +299,7 @@ class BaseNode:
                 else:
                     self.data = np.asarray(data)
                 # convert data to nearest supported dtype
-                dtype = _check_dtype(data)
+                dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
         else:
-- 
2.43.0


From 5cb6c7463fbae8dcc3a458192db6178529493fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:42 +0000
Subject: [PATCH 12/24] fix: accessing a missing wavelet packet node keeps data
 assigned to its siblings

---
 pywt/_wavelet_packets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 345c774..cd3ab21 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -227,7 +227,12 @@ class BaseNode:
         self._validate_node_name(part)
         subnode = self._get_node(part)
         if subnode is None and decompose and not self.is_empty:
+            siblings = [(p, self._get_node(p)) for p in self.PARTS]
             self.decompose()
+            # only missing subnodes are created: others may hold assigned data
+            for p, node in siblings:
+                if node is not None:
+                    self._set_node(p, node)
             subnode = self._get_node(part)
         return subnode
 
-- 
2.43.0


From 3b21c059c0b3de2d3b535b101b004c27b683553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:04 +0000
Subject: [PATCH 13/24] fix: byte-swapped complex input no longer loses its
 imaginary part

---
 pywt/_extensions/_pywt.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index ddef575..c8cb4a3 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1034,7 +1034,8 @@ cpdef np.dtype _check_dtype(data):
     """Check for cA/cD input what (if any) the dtype is."""
     cdef np.dtype dt
     try:
-        dt = data.dtype
+        # kernels only handle native byte order
+        dt = data.dtype.newbyteorder('=')
         if dt not in (np.float64, np.float32, np.complex64, np.complex128):
             if dt == np.half:
                 # half-precision input converted to single precision
-- 
2.43.0


From d0791e0450dad77c732231234f3f321672dc5d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:04 +0000
Subject: [PATCH 14/24] fix: pad accepts a zero right width in smooth and
 antisymmetric mode

---
 pywt/_dwt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 1af28d9..366ded0 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -468,9 +468,10 @@ def pad(x, pad_widths, mode):
                 left + np.arange(pad_width[0], 0, -1) * slope_left
 
             # smooth extension to right
-            right = vector[-pad_width[1] - 1]
-            slope_right = (right - vector[-pad_width[1] - 2])
-            vector[-pad_width[1]:] = \
+            end = vector.size - pad_width[1]
+            right = vector[end - 1]
+            slope_right = (right - vector[end - 2])
+            vector[end:] = \
                 right + np.arange(1, pad_width[1] + 1) * slope_right
             return vector
         xp = np.pad(x, pad_widths, pad_smooth)
@@ -481,7 +482,7 @@ def pad(x, pad_widths, mode):
             npad_l, npad_r = pad_width
             vsize_nonpad = vector.size - npad_l - npad_r
             # Note: must modify vector in-place
-            vector[:] = np.pad(vector[pad_width[0]:-pad_width[-1]],
+            vector[:] = np.pad(vector[npad_l:npad_l + vsize_nonpad],
                                pad_width, mode='symmetric')
             vp = vector
             r_edge = npad_l + vsize_nonpad - 1
-- 
2.43.0


From a90328a077bfa93aa35dd813ec7330bb4485edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:48 +0000
Subject: [PATCH 15/24] fix: pad of a single sample in smooth mode is constant,
 as in the transforms

---
 pywt/_dwt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 366ded0..efeb9ca 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -461,6 +461,12 @@ def pad(x, pad_widths, mode):
         xp = np.pad(x, pad_widths, mode='edge')
     elif mode == 'smooth':
         def pad_smooth(vector, pad_width, iaxis, kwargs):
+            end = vector.size - pad_width[1]
+            if end - pad_width[0] == 1:
+                # no slope: constant, as in the transforms
+                vector[:] = vector[pad_width[0]]
+                return vector
+
             # smooth extension to left
             left = vector[pad_width[0]]
             slope_left = (left - vector[pad_width[0] + 1])
@@ -468,7 +474,6 @@ def pad(x, pad_widths, mode):
                 left + np.arange(pad_width[0], 0, -1) * slope_left
 
             # smooth extension to right
-            end = vector.size - pad_width[1]
             right = vector[end - 1]
             slope_right = (right - vector[end - 2])
             vector[end:] = \
-- 
2.43.0


From 5d16c64eeae9632b6bb1cb59a4ae81cf8d78b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:17 +0000
Subject: [PATCH 16/24] fix: reconstruct trims a wavelet packet node to the
 shape of the data assigned to it

---
 pywt/_wavelet_packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index cd3ab21..918279a 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -307,6 +307,8 @@ class BaseNode:
                 dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
+                # reconstructions of this node are trimmed to the new shape
+                self._data_shape = self.data.shape
         else:
             raise TypeError("Invalid path parameter type - expected string but"
                             " got %s." % type(path))
-- 
2.43.0


From 5c83e8c8d197fe9966ced639c52b8df2f94468d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 17/24] fix: continuous wavelet bounds and frequencies are kept
 in double precision

---
 pywt/_extensions/_pywt.pyx    | 8 ++++----
 pywt/_extensions/c/wavelets.h | 8 ++++----
 pywt/_extensions/wavelet.pxd  | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index c8cb4a3..a3c4fbf 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -821,7 +821,7 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
         def __get__(self):
             if self.w.lower_bound != self.w.upper_bound:
                 return self.w.lower_bound
-        def __set__(self, float value):
+        def __set__(self, double value):
             self.w.lower_bound = value
 
     property upper_bound:
@@ -829,7 +829,7 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
         def __get__(self):
             if self.w.upper_bound != self.w.lower_bound:
                 return self.w.upper_bound
-        def __set__(self, float value):
+        def __set__(self, double value):
             self.w.upper_bound = value
 
     property center_frequency:
@@ -837,7 +837,7 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
         def __get__(self):
             if self.w.center_frequency > 0:
                 return self.w.center_frequency
-        def __set__(self, float value):
+        def __set__(self, double value):
             self.w.center_frequency = value
 
     property bandwidth_frequency:
@@ -845,7 +845,7 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
         def __get__(self):
             if self.w.bandwidth_frequency > 0:
                 return self.w.bandwidth_frequency
-        def __set__(self, float value):
+        def __set__(self, double value):
             self.w.bandwidth_frequency = value
 
     property fbsp_order:
diff --git a/pywt/_extensions/c/wavelets.h b/pywt/_extensions/c/wavelets.h
index 7aaac5c..d9027e6 100644
--- a/pywt/_extensions/c/wavelets.h
+++ b/pywt/_extensions/c/wavelets.h
@@ -76,12 +76,12 @@ typedef struct {
 typedef struct {
 
     BaseWavelet base;
-    float lower_bound;
-    float upper_bound;
+    double lower_bound;
+    double upper_bound;
     /* Parameters for shan, fbsp, cmor*/
     int complex_cwt;
-    float center_frequency;
-    float bandwidth_frequency;
+    double center_frequency;
+    double bandwidth_frequency;
     unsigned int fbsp_order;
 
 } ContinuousWavelet;
diff --git a/pywt/_extensions/wavelet.pxd b/pywt/_extensions/wavelet.pxd
index 5cffff0..8af9071 100644
--- a/pywt/_extensions/wavelet.pxd
+++ b/pywt/_extensions/wavelet.pxd
@@ -59,10 +59,10 @@ cdef extern from "c/wavelets.h":
     ctypedef struct ContinuousWavelet:
 
         BaseWavelet base
-        float lower_bound
-        float upper_bound
-        float center_frequency
-        float bandwidth_frequency
+        double lower_bound
+        double upper_bound
+        double center_frequency
+        double bandwidth_frequency
         unsigned int fbsp_order
         int complex_cwt
 
-- 
2.43.0


From c9881984210fa72d1fa541c6f2e1e087c99307e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:41 +0000
Subject: [PATCH 18/24] fix: iswt2 and iswtn keep the precision and imaginary
 part of earlier levels when bands differ in dtype

---
 pywt/_swt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index db31912..41bcfa5 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -489,7 +489,7 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
         # make sure output shares the common dtype
         # (conversion of dtype for individual coeffs is handled within idwt2 )
         common_dtype = np.result_type(*(
-            [dt, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
+            [output.dtype, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
@@ -773,7 +773,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                    if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [v.dtype for v in details.values()]))
+            [output.dtype, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From 077383a9683b7b5e907db606756de47f07a6c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:57 +0000
Subject: [PATCH 19/24] fix: idwtn treats float16 and byte-swapped bands as
 single precision instead of upcasting

---
 pywt/_multidim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 5a30b80..e119b0e 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -14,6 +14,7 @@ import numpy as np
 
 from ._c99_config import _have_c99_complex
 from ._extensions._dwt import dwt_axis, idwt_axis
+from ._extensions._pywt import _check_dtype
 from ._utils import AxisError, _modes_per_axis, _wavelets_per_axis
 
 __all__ = ['dwt2', 'idwt2', 'dwtn', 'idwtn']
@@ -297,6 +298,9 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
             L = coeffs.get(key + 'a', None)
             H = coeffs.get(key + 'd', None)
             if L is not None and H is not None:
+                # float16 counts as float32, as in idwt_axis
+                L = np.asarray(L, dtype=_check_dtype(L))
+                H = np.asarray(H, dtype=_check_dtype(H))
                 if L.dtype != H.dtype:
                     # upcast to a common dtype (float64 or complex128)
                     if L.dtype.kind == 'c' or H.dtype.kind == 'c':
-- 
2.43.0


From 6d84b4d8ea58623b2ada3d6b184d2508d0d27711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:23 +0000
Subject: [PATCH 20/24] fix: idwt along an empty axis raises instead of looping
 forever

---
 pywt/_extensions/_dwt.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 81cc55d..9c82ea9 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -290,6 +290,9 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
 
     if axis >= <unsigned int> input_shape.shape[0]:
         raise ValueError("Axis greater than coefficient dimensions")
+    if input_shape[axis] < 1:
+        raise ValueError("Coefficient arrays must not be empty along the "
+                         "transformed axis.")
 
     output_shape = input_shape.copy()
     output_shape[axis] = common.idwt_buffer_length(input_shape[axis],
-- 
2.43.0


From 4f71d7a2032b0b6a795b35b4510d9b5fde2eb329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:23 +0000
Subject: [PATCH 21/24] fix: antisymmetric pad of an empty array no longer
 loops forever

---
 pywt/_dwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index efeb9ca..9ceb31a 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -486,6 +486,8 @@ def pad(x, pad_widths, mode):
             # implement by flipping portions symmetric padding
             npad_l, npad_r = pad_width
             vsize_nonpad = vector.size - npad_l - npad_r
+            if vector.size == 0:
+                return vector
             # Note: must modify vector in-place
             vector[:] = np.pad(vector[npad_l:npad_l + vsize_nonpad],
                                pad_width, mode='symmetric')
-- 
2.43.0


From a4db154a412c75c914bb4b7c567f3b663e5e7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:05 +0000
Subject: [PATCH 22/24] fix: swt filter spacing no longer overflows int at
 level 32 and above

---
 pywt/_extensions/c/wt.template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_extensions/c/wt.template.c b/pywt/_extensions/c/wt.template.c
index d79fbd3..903a091 100644
--- a/pywt/_extensions/c/wt.template.c
+++ b/pywt/_extensions/c/wt.template.c
@@ -471,7 +471,7 @@ int CAT(TYPE, _swt_)(const TYPE * const restrict input, pywt_index_t input_len,
             goto cleanup;
         if(e_filter == NULL)
             return -1;
-        fstep = 1 << (level - 1);  // spacing between non-zero filter entries
+        fstep = (pywt_index_t)1 << (level - 1);  // spacing between non-zero filter entries
 
         /* compute upsampled filter values */
         for(i = 0; i < filter_len; ++i){
-- 
2.43.0


From ecad185d281fe3dee0b0807d629a723147ccef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:49 +0000
Subject: [PATCH 23/24] fix: wavedecn, wavedecn_shapes and dwtn_max_level
 reject the same axis given twice with different signs

---
 pywt/_multilevel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 1529cc2..67be2e8 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -347,12 +347,12 @@ def _prep_axes_wavedecn(shape, axes):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
-        raise ValueError("The axes passed to wavedecn must be unique.")
     try:
         axes_shapes = [shape[ax] for ax in axes]
     except IndexError:
         raise AxisError("Axis greater than data dimensions")
+    if len(axes) != len({ax % ndim for ax in axes}):
+        raise ValueError("The axes passed to wavedecn must be unique.")
     ndim_transform = len(axes)
     return axes, axes_shapes, ndim_transform
 
-- 
2.43.0


From ec5cd8592c05e76ef7d8062bd1092e1dd15210e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:16 +0000
Subject: [PATCH 24/24] fix: swt rejects a level that overflows when added to
 start_level

---
 pywt/_extensions/_swt.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywt/_extensions/_swt.pyx b/pywt/_extensions/_swt.pyx
index 26e9e33..9b65489 100644
--- a/pywt/_extensions/_swt.pyx
+++ b/pywt/_extensions/_swt.pyx
@@ -56,8 +56,7 @@ def swt(cdata_t[::1] data, Wavelet wavelet, size_t level, size_t start_level,
     cdef cdata_t[::1] cA, cD
     cdef Wavelet w
     cdef int retval
-    cdef size_t end_level = start_level + level
-    cdef size_t data_size, output_len, i
+    cdef size_t end_level, data_size, output_len, i
 
     if data.size % 2:
         raise ValueError("Length of data must be even.")
@@ -70,12 +69,12 @@ def swt(cdata_t[::1] data, Wavelet wavelet, size_t level, size_t start_level,
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.size))
 
-    if end_level > common.swt_max_level(data.size):
+    if level > common.swt_max_level(data.size) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.size) - start_level))
         raise ValueError(msg)
-
+    end_level = start_level + level
 
     output_len = common.swt_buffer_length(data.size)
     if output_len < 1:
@@ -166,7 +165,7 @@ cpdef swt_axis(np.ndarray data, Wavelet wavelet, size_t level,
     cdef np.ndarray cD, cA
     cdef size_t[::1] output_shape
     cdef np.npy_intp[::1] strides_view
-    cdef size_t end_level = start_level + level
+    cdef size_t end_level
     cdef int retval = -5
     cdef size_t i
 
@@ -181,11 +180,12 @@ cpdef swt_axis(np.ndarray data, Wavelet wavelet, size_t level,
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.shape[axis]))
 
-    if end_level > common.swt_max_level(data.shape[axis]):
+    if level > common.swt_max_level(data.shape[axis]) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.shape[axis]) - start_level))
         raise ValueError(msg)
+    end_level = start_level + level
 
     data = data.astype(_check_dtype(data), copy=False)
     # For SWT, the output matches the shape of the input
-- 
2.43.0

