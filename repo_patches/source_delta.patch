From 0a7e3b55a598a4c5030cd1294cecfe8d76d8c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 01/38] fix: order JTFS output paths consistently with meta()

TimeFrequencyScattering.scattering() stacked (or listed) its paths in the
order of computation while meta() sorts them by (len(n), n), so that with
format='time' the channels did not match meta()['key'], 'n', 'order', etc.
Sort the paths, as Scattering1D already does.
---
 kymatio/scattering1d/frontend/base_frontend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 2e7015e..0575e62 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -632,6 +632,9 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
                 batch_shape, n_kept_dims=(1 + (self.format == "joint")))
             S.append(path)
 
+        # Sort paths in the same order as meta()
+        S.sort(key=lambda path: (len(path['n']), path['n']))
+
         if (self.format == 'joint') and (self.out_type == 'array'):
             # Skip zeroth order
             S = S[1:]
-- 
2.43.0


From 832ca4f3b89c77b81b17fdff57a8441718b456d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 02/38] fix: drop zeroth order from JTFS meta()['key'] when it
 is not in the output

With format='joint' and out_type='array', scattering() and all other
entries of meta() skip the zeroth order but meta()['key'] kept it, so that
keys were shifted by one and output_size() was off by one.
---
 kymatio/scattering1d/frontend/base_frontend.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 0575e62..5363298 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -660,15 +660,16 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             self.filters_fr[0], self.log2_stride_fr, self.average_fr,
             self.out_type, self.format)
         S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
+        if self.format == 'joint' and self.out_type == 'array':
+            # Skip zeroth order
+            S = S[1:]
         meta = dict(key=[path['n'] for path in S], n=[], n_fr=[], order=[])
         for path in S:
             if len(path['n']) == 0:
-                # If format='joint' and out_type='array' skip zeroth order
-                if not (self.format == 'joint' and self.out_type == 'array'):
-                    # Zeroth order: no n1, no n_fr, no n2
-                    meta['n'].append([np.nan, np.nan])
-                    meta['n_fr'].append(np.nan)
-                    meta['order'].append(0)
+                # Zeroth order: no n1, no n_fr, no n2
+                meta['n'].append([np.nan, np.nan])
+                meta['n_fr'].append(np.nan)
+                meta['order'].append(0)
             else:
                 if len(path['n']) == 1:
                     # First order and format='joint': n=(n_fr,)
-- 
2.43.0


From 6a5c40da2f8d826b9135948760c3d58e7da57cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 03/38] fix: subsample second-order JTFS paths consistently
 when stride < 2**j2

With local averaging at a stride below 2**j2 (small stride or small T),
time_scattering_widthfirst() subsampled the paths of a given n2 to
different lengths and time_averaging() assumed the wrong resolution, so
that the transform raised an error. Subsample by 2**min(j2, log2_stride),
as in scattering1d.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 9a3c3a6..3d402f1 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -172,7 +172,8 @@ def time_scattering_widthfirst(U_0, backend, filters, log2_stride, average_local
             k1 = min(j1, log2_stride) if average_local else j1
 
             if j2 > j1:
-                k2 = min(j2-k1, log2_stride) if average_local else (j2-k1)
+                sub2_adj = min(j2, log2_stride) if average_local else j2
+                k2 = max(sub2_adj - k1, 0)
                 U_2_c = backend.cdgmm(U_1_hat['coef'], psi2[n2]['levels'][k1])
                 U_2_hat = backend.subsample_fourier(U_2_c, 2 ** k2)
                 U_2_c = backend.ifft(U_2_hat)
@@ -306,7 +307,7 @@ def time_averaging(U_2, backend, phi_f, log2_stride):
     U_2{n2,n_fr}(t, n1) = |Y_2_fr{n2,n_fr}|(t, n1)
     """
     log2_T = phi_f['j']
-    k_in = U_2['j'][-1]
+    k_in = min(U_2['j'][-1], log2_stride)
     k_J = log2_stride - k_in
     U_hat = backend.rfft(U_2['coef'])
     S_c = backend.cdgmm(U_hat, phi_f['levels'][k_in])
-- 
2.43.0


From be9373f0b7b2fefd8073dbd161a486e74db8aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 04/38] fix: average JTFS paths at the right frequential
 resolution when stride_fr < F

frequency_scattering() subsamples by 2**min(j_fr, log2_stride_fr) but
frequency_averaging() assumed 2**min(j_fr, log2_F) and the paths with
spin==0 reported 2**j_fr as their frequential stride. Hence stride_fr < F
raised an error, and F < 2**J_fr returned rows mislabelled in n1.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 3d402f1..df71e27 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -272,7 +272,7 @@ def frequency_scattering(X, backend, filters_fr, log2_stride_fr,
         # as (X['n'][1:] + (n_fr,)), i.e., n=(n_fr,) is not spinned
         # and n=(n2, n_fr) if spinned. This 'n' tuple is unique.
         yield {**X, 'coef': Y_fr, 'n': (X['n'][1:] + (n_fr,)),
-            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**j_fr),
+            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**k_fr),
             'spin': spin}
 
 
@@ -354,13 +354,12 @@ def frequency_averaging(U_2, backend, phi_fr_f, log2_stride_fr, average_fr):
     U_2{n2,n_fr}(t, n1) = |Y_2_fr{n2,n_fr}|(t[j2], n1[j_fr])
     """
     if average_fr:
-        log2_F = phi_fr_f['j']
         U_2_T = backend.swap_time_frequency(U_2['coef'])
         if average_fr == 'global':
             S_2_T = backend.average_global(U_2_T)
             n1_stride = U_2['n1_max']
         elif average_fr == 'local':
-            k_in = min(U_2['j_fr'][-1], log2_F)
+            k_in = min(U_2['j_fr'][-1], log2_stride_fr)
             k_J = log2_stride_fr - k_in
             U_hat = backend.rfft(U_2_T)
             S_c = backend.cdgmm(U_hat, phi_fr_f['levels'][k_in])
-- 
2.43.0


From a16073f75f88cf5d9d071cec65793e4f545453f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 05/38] fix: average JTFS paths with spin==0 when F='global'

Global frequential averaging skipped the paths with spin==0, which kept
several frequency bins where every other path has a single one, so that
out_type='array' with format='joint' raised an error.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index df71e27..979d217 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -426,9 +426,10 @@ def jtfs_average_and_format(U_gen, backend, phi_f, log2_stride, average,
             # Case 2b.
             path = time_averaging(path, backend, phi_f, log2_stride)
 
-        # Frequential averaging. NB. if spin==0, U_gen is already averaged.
-        # Hence, we only average if spin!=0, i.e. psi_{n_fr} in path.
-        if average_fr and not path['spin'] == 0:
+        # Frequential averaging. NB. if spin==0, U_gen is already averaged
+        # locally. Hence, we only average if averaging is global or if
+        # spin!=0, i.e. psi_{n_fr} in path.
+        if average_fr == 'global' or (average_fr and not path['spin'] == 0):
             path = frequency_averaging(path, backend,
                 phi_fr_f, oversampling_fr, average_fr)
 
-- 
2.43.0


From 47ee51472b98fbb84829d502834fc44104dec3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 06/38] fix: honour max_order, oversampling and T in the Keras
 Scattering1D layer

The layer ignored its max_order and oversampling arguments, get_config()
raised an AttributeError and left T out, and compute_output_shape() did not
account for T, global averaging, nor for more than one batch dimension.
---
 .../scattering1d/frontend/keras_frontend.py   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index c7ac5a6..0cea7d9 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -12,28 +12,32 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         self.J = J
         self._Q = Q
         self._T = T
-        self._max_order = 2
-        self._oversampling = 0
+        self.max_order = max_order
+        self._oversampling = oversampling
         self.out_type = 'array'
         self.backend = None
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-1:])
         self.S = ScatteringTensorFlow1D(J=self.J, shape=shape,
-            Q=self._Q, T=self._T, max_order=self._max_order,
+            Q=self._Q, T=self._T, max_order=self.max_order,
             oversampling=self._oversampling)
         ScatteringKeras.build(self, input_shape)
 
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         nc = self.S.output_size()
-        k0 = max(self.J - self._oversampling, 0)
-        ln = self.S.ind_end[k0] - self.S.ind_start[k0]
-        output_shape = [input_shape[0], nc, ln]
+        if self.S.average == 'global':
+            ln = 1
+        else:
+            k0 = self.S.log2_stride
+            ln = self.S.ind_end[k0] - self.S.ind_start[k0]
+        output_shape = input_shape[:-1] + [nc, ln]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-        keys = ["J", "Q", "max_order", "oversampling"]
-        return {key: getattr(self, key) for key in keys}
+        return {"J": self.J, "Q": self._Q, "T": self._T,
+                "max_order": self.max_order,
+                "oversampling": self._oversampling}
 
 ScatteringKeras1D._document()
-- 
2.43.0


From d0959be41cf9cf5e8a6784e6d399f7784035e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 07/38] fix: make pre_pad usable in TensorFlow and Keras
 Scattering2D

With pre_pad=True, the TensorFlow frontend cast the input to complex before
an FFT which requires a real input and thus always raised a TypeError. The
Keras layer took the shape of the padded input as that of the signal, and
compute_output_shape() ignored pre_pad, max_order, and any batch dimension
beyond the first.
---
 kymatio/scattering2d/frontend/keras_frontend.py      | 11 +++++++++--
 kymatio/scattering2d/frontend/tensorflow_frontend.py |  5 -----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 75661cd..5b3d0f6 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -14,6 +14,9 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-2:])
+        if self.pre_pad:
+            # The input is already padded by 2 ** J on each side
+            shape = tuple(n - 2 * 2 ** self.J for n in shape)
         self.S = ScatteringTensorFlow2D(J=self.J, shape=shape,
                                         L=self.L, max_order=self.max_order,
                                         pre_pad=self.pre_pad)
@@ -25,8 +28,12 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         m0 = input_shape[-2] // 2 ** self.J
         m1 = input_shape[-1] // 2 ** self.J
-        nc = (self.L ** 2) * self.J * (self.J - 1) // 2 + self.L * self.J + 1
-        output_shape = [input_shape[0], nc, m0, m1]
+        if self.pre_pad:
+            m0, m1 = m0 - 2, m1 - 2
+        nc = self.L * self.J + 1
+        if self.max_order > 1:
+            nc += (self.L ** 2) * self.J * (self.J - 1) // 2
+        output_shape = input_shape[:-2] + [nc, m0, m1]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
diff --git a/kymatio/scattering2d/frontend/tensorflow_frontend.py b/kymatio/scattering2d/frontend/tensorflow_frontend.py
index b8a09ae..bf12213 100644
--- a/kymatio/scattering2d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering2d/frontend/tensorflow_frontend.py
@@ -13,11 +13,6 @@ class ScatteringTensorFlow2D(ScatteringTensorFlow, ScatteringBase2D):
         ScatteringBase2D.build(self)
         ScatteringBase2D.create_filters(self)
 
-        if pre_pad:
-            # Need to cast to complex in TF
-            self.pad = lambda x: tf.cast(x, tf.complex64)
-
-
     def scattering(self, input):
         with tf.name_scope('scattering') as scope:
             try:
-- 
2.43.0


From ed6775b680cca69a792f8af07673e5c9da072b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 08/38] fix: import warn in scattering2d.frontend.base_frontend

The deprecated properties M and N of Scattering2D raised a NameError.
---
 kymatio/scattering2d/frontend/base_frontend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index 31d4f74..c6006bd 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -1,4 +1,5 @@
 from ...frontend.base_frontend import ScatteringBase
+from warnings import warn
 
 from ..filter_bank import filter_bank
 from ..utils import compute_padding
-- 
2.43.0


From e7939241c48cc9d4b034b2a8002efbf82c31802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 09/38] fix: raise TypeError for non-array inputs in
 NumpyBackend.input_checks

_np is a class attribute; the bare name raised a NameError.
---
 kymatio/backend/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/backend/numpy_backend.py b/kymatio/backend/numpy_backend.py
index 13e01bd..22ddfb0 100644
--- a/kymatio/backend/numpy_backend.py
+++ b/kymatio/backend/numpy_backend.py
@@ -8,15 +8,15 @@ class NumpyBackend:
 
     name = 'numpy'
 
-    @staticmethod
-    def input_checks(x):
+    @classmethod
+    def input_checks(cls, x):
         if x is None:
             raise TypeError('The input should be not empty.')
 
         #want to make sure that we have either a numpy or numpy-like arrays.
         #since each numpy-like implements its own distinct ndarray, we need to
         #check if numpy
-        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, _np.ndarray)):
+        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, cls._np.ndarray)):
             raise TypeError(f'The input should be a numpy array, got type {type(x)}')
 
     @classmethod
-- 
2.43.0


From b0ccd2f91d0b547687a9bfe823fd2333a7ad49ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 10/38] fix: tolerate concurrent creation of the cache
 directory

get_cache_dir() raised FileExistsError if another process or thread
created the directory between the existence check and os.makedirs.
---
 kymatio/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/caching.py b/kymatio/caching.py
index 0c0d2a7..caa11a7 100644
--- a/kymatio/caching.py
+++ b/kymatio/caching.py
@@ -55,7 +55,7 @@ def get_cache_dir(name="", cache_base_dir=None, create=True):
         return path
     else:
         if create:
-            os.makedirs(path)
+            os.makedirs(path, exist_ok=True)
             return path
         else:
             raise ValueError(
-- 
2.43.0


From f70f74bfa81ea12cb8ef6660fb9b7a730f4356a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 11/38] fix: set __qualname__ of public classes so that objects
 can be pickled

The frontend modules rename their classes through __name__ and __module__
only, so that pickle looked up e.g. kymatio.numpy.ScatteringNumPy1D, which
does not exist.
---
 kymatio/jax.py        | 4 ++++
 kymatio/keras.py      | 2 ++
 kymatio/numpy.py      | 4 ++++
 kymatio/sklearn.py    | 4 ++++
 kymatio/tensorflow.py | 4 ++++
 kymatio/torch.py      | 4 ++++
 6 files changed, 22 insertions(+)

diff --git a/kymatio/jax.py b/kymatio/jax.py
index daebde7..fc99721 100644
--- a/kymatio/jax.py
+++ b/kymatio/jax.py
@@ -6,15 +6,19 @@ from .scattering3d.frontend.jax_frontend import (
 
 Scattering1D.__module__ = "kymatio.jax"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 Scattering2D.__module__ = "kymatio.jax"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.jax"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 
 TimeFrequencyScattering.__module__ = "kymatio.jax"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 __all__ = ["Scattering1D", "Scattering2D", "HarmonicScattering3D", "TimeFrequencyScattering"]
diff --git a/kymatio/keras.py b/kymatio/keras.py
index f812b00..d26896c 100644
--- a/kymatio/keras.py
+++ b/kymatio/keras.py
@@ -3,8 +3,10 @@ from .scattering2d.frontend.keras_frontend import ScatteringKeras2D as Scatterin
 
 Scattering1D.__module__ = "kymatio.keras"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 Scattering2D.__module__ = "kymatio.keras"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 __all__ = ["Scattering1D", "Scattering2D"]
diff --git a/kymatio/numpy.py b/kymatio/numpy.py
index e442e03..c3f0abb 100644
--- a/kymatio/numpy.py
+++ b/kymatio/numpy.py
@@ -9,15 +9,19 @@ from .scattering3d.frontend.numpy_frontend import (
 
 Scattering1D.__module__ = "kymatio.numpy"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.numpy"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.numpy"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.numpy"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
diff --git a/kymatio/sklearn.py b/kymatio/sklearn.py
index 095596d..8d6fe8c 100644
--- a/kymatio/sklearn.py
+++ b/kymatio/sklearn.py
@@ -13,14 +13,18 @@ from .scattering3d.frontend.sklearn_frontend import (
 
 Scattering1D.__module__ = "kymatio.sklearn"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.sklearn"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.sklearn"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.sklearn"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = ["Scattering1D", "Scattering2D", "HarmonicScattering3D", "TimeFrequencyScattering"]
diff --git a/kymatio/tensorflow.py b/kymatio/tensorflow.py
index b4ba8b2..651fd52 100644
--- a/kymatio/tensorflow.py
+++ b/kymatio/tensorflow.py
@@ -13,15 +13,19 @@ from .scattering3d.frontend.tensorflow_frontend import (
 
 Scattering1D.__module__ = "kymatio.tensorflow"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.tensorflow"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.tensorflow"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.tensorflow"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
diff --git a/kymatio/torch.py b/kymatio/torch.py
index 7e5d749..3fb420a 100644
--- a/kymatio/torch.py
+++ b/kymatio/torch.py
@@ -9,15 +9,19 @@ from .scattering3d.frontend.torch_frontend import (
 
 Scattering1D.__module__ = "kymatio.torch"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.torch"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.torch"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.torch"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
-- 
2.43.0


From 8e287157e3f974f8f8969cb5962b170289c42b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 12/38] fix: make 2D and 3D scattering objects picklable and
 copyable

---
 kymatio/scattering2d/backend/numpy_backend.py        | 5 +++--
 kymatio/scattering2d/frontend/base_frontend.py       | 6 +++++-
 kymatio/scattering2d/frontend/torch_frontend.py      | 6 +++++-
 kymatio/scattering3d/frontend/numpy_frontend.py      | 4 ++--
 kymatio/scattering3d/frontend/tensorflow_frontend.py | 4 ++--
 kymatio/scattering3d/frontend/torch_frontend.py      | 4 ++--
 6 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/kymatio/scattering2d/backend/numpy_backend.py b/kymatio/scattering2d/backend/numpy_backend.py
index 3c89a3c..7dd90fa 100644
--- a/kymatio/scattering2d/backend/numpy_backend.py
+++ b/kymatio/scattering2d/backend/numpy_backend.py
@@ -14,14 +14,15 @@ class Pad(object):
                 size of the original signal
 
         """
-        self.np = np
+        # Keep the function rather than the module: modules cannot be pickled.
+        self.np_pad = np.pad
         self.pad_size = pad_size
 
     def __call__(self, x):
         paddings = ((0, 0),)
         paddings += ((self.pad_size[0], self.pad_size[1]), (self.pad_size[2], self.pad_size[3]))
 
-        output = self.np.pad(x, paddings, mode='reflect')
+        output = self.np_pad(x, paddings, mode='reflect')
         return output
 
 
diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index c6006bd..46438c0 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -5,6 +5,10 @@ from ..filter_bank import filter_bank
 from ..utils import compute_padding
 
 
+def _no_pad(x):
+    return x
+
+
 class ScatteringBase2D(ScatteringBase):
     def __init__(self, J, shape, L=8, max_order=2, pre_pad=False,
             backend=None, out_type='array'):
@@ -28,7 +32,7 @@ class ScatteringBase2D(ScatteringBase):
             self.pad = self.backend.Pad([(self._M_padded - M) // 2, (self._M_padded - M+1) // 2, (self._N_padded - N) // 2,
                                 (self._N_padded - N + 1) // 2], [M, N])
         else:
-            self.pad = lambda x: x
+            self.pad = _no_pad
 
         self.unpad = self.backend.unpad
 
diff --git a/kymatio/scattering2d/frontend/torch_frontend.py b/kymatio/scattering2d/frontend/torch_frontend.py
index 66ba548..a776355 100644
--- a/kymatio/scattering2d/frontend/torch_frontend.py
+++ b/kymatio/scattering2d/frontend/torch_frontend.py
@@ -5,6 +5,10 @@ from ...scattering2d.core.scattering2d import scattering2d
 from ...frontend.torch_frontend import ScatteringTorch
 
 
+def _no_pad(x):
+    return x.reshape(x.shape + (1,))
+
+
 class ScatteringTorch2D(ScatteringTorch, ScatteringBase2D):
     def __init__(self, J, shape, L=8, max_order=2, pre_pad=False,
             backend='torch', out_type='array'):
@@ -16,7 +20,7 @@ class ScatteringTorch2D(ScatteringTorch, ScatteringBase2D):
 
         if pre_pad:
             # Need to cast to complex in Torch
-            self.pad = lambda x: x.reshape(x.shape + (1,))
+            self.pad = _no_pad
 
         self.register_filters()
 
diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index 9517153..c1ac321 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -36,10 +36,10 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
         signal_shape = input_array.shape[-3:]
 
         input_array = input_array.reshape((-1,) + signal_shape)
-        self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+        averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=self.averaging)
+                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=averaging)
 
 
         scattering_shape = S.shape[1:]
diff --git a/kymatio/scattering3d/frontend/tensorflow_frontend.py b/kymatio/scattering3d/frontend/tensorflow_frontend.py
index 95e1a11..2bcf5a8 100644
--- a/kymatio/scattering3d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering3d/frontend/tensorflow_frontend.py
@@ -46,7 +46,7 @@ class HarmonicScatteringTensorFlow3D(ScatteringTensorFlow, ScatteringBase3D):
                 raise ValueError('method must be in {}'.format(methods))
 
             if self.method == 'integral':
-                self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+                averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
             batch_shape = tf.shape(x)[:-3]
             signal_shape = tf.shape(x)[-3:]
@@ -56,7 +56,7 @@ class HarmonicScatteringTensorFlow3D(ScatteringTensorFlow, ScatteringBase3D):
             S = scattering3d(x, filters=self.filters,
                              rotation_covariant=self.rotation_covariant,
                              L=self.L, J=self.J, max_order=self.max_order,
-                             backend=self.backend, averaging=self.averaging)
+                             backend=self.backend, averaging=averaging)
 
             scattering_shape = tf.shape(S)[1:]
 
diff --git a/kymatio/scattering3d/frontend/torch_frontend.py b/kymatio/scattering3d/frontend/torch_frontend.py
index 115fc4b..4fa88dc 100644
--- a/kymatio/scattering3d/frontend/torch_frontend.py
+++ b/kymatio/scattering3d/frontend/torch_frontend.py
@@ -68,10 +68,10 @@ class HarmonicScatteringTorch3D(ScatteringTorch, ScatteringBase3D):
             raise ValueError('method must be in {}'.format(methods))
 
         if self.method == 'integral': \
-                self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+                averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=self.averaging)
+                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=averaging)
         scattering_shape = S.shape[1:]
 
         S = S.reshape(batch_shape + scattering_shape)
-- 
2.43.0


From 66a6c05c05700f1e9f6fb77186c63af5a54e0721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 13/38] fix: make get_params/set_params of sklearn transformers
 faithful

---
 kymatio/frontend/sklearn_frontend.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 0fa33c7..2e37527 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -6,6 +6,26 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         # No fitting necessary.
         return self
 
+    def get_params(self, deep=True):
+        # Some parameters (T, F, stride, ...) are properties which return values
+        # resolved from other parameters (e.g. T = 2**J for T='global'). Report
+        # the values given at construction so that clones are equivalent.
+        params = super(ScatteringTransformerMixin, self).get_params(deep=deep)
+        return {key: getattr(self, '_' + key, value)
+                for key, value in params.items()}
+
+    def set_params(self, **params):
+        # Padding and filters depend on the parameters, so build again.
+        valid_params = self.get_params()
+        for key in params:
+            if key not in valid_params:
+                raise ValueError('Invalid parameter {!r} for estimator {}. '
+                    'Valid parameters are: {}.'.format(
+                        key, type(self).__name__, sorted(valid_params)))
+        if params:
+            self.__init__(**{**valid_params, **params})
+        return self
+
     def predict(self, x):
         batch_shape = x.shape[:-1]
         x = x.reshape((-1,) + self.shape)
-- 
2.43.0


From b345ada1740a6bd8a1e7b2bab6cd020839daa890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 14/38] fix: compare stride with the stride that oversampling
 stands for

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 5363298..c1116b1 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -74,7 +74,7 @@ class ScatteringBase1D(ScatteringBase):
                 "Pass stride = 2**(J-oversampling) or "
                 "stride = 2**(log2(T)-oversampling) "
                 "to retain current behavior.", DeprecationWarning)
-            if not self._stride in [None, 2**(self.log2_T-self._oversampling-1)]:
+            if not self._stride in [None, 2**(self.log2_T-self._oversampling)]:
                 raise ValueError("oversampling={} and stride={}"
                     "are incompatible".format(self._oversampling, self._stride))
             self._stride = 2 ** (self.log2_T-self._oversampling)
-- 
2.43.0


From 958a3659baea8979e6766d3fb65922dc66238918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 15/38] fix: support dynamic batch sizes in TensorFlow
 HarmonicScattering3D

---
 kymatio/scattering3d/backend/tensorflow_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering3d/backend/tensorflow_backend.py b/kymatio/scattering3d/backend/tensorflow_backend.py
index 70bb662..f2b848f 100644
--- a/kymatio/scattering3d/backend/tensorflow_backend.py
+++ b/kymatio/scattering3d/backend/tensorflow_backend.py
@@ -64,7 +64,7 @@ class TensorFlowBackend3D(TensorFlowBackend):
         """
         integrals = []
         for i_q, q in enumerate(integral_powers):
-            integrals.append(tf.reduce_sum(tf.reshape(tf.pow(input_array, q), shape=(input_array.shape[0], -1)), axis=1))
+            integrals.append(tf.reduce_sum(tf.reshape(tf.pow(input_array, q), shape=(tf.shape(input_array)[0], -1)), axis=1))
         return tf.stack(integrals, axis=-1)
 
     @staticmethod
@@ -98,7 +98,7 @@ class TensorFlowBackend3D(TensorFlowBackend):
     @staticmethod
     def stack(arrays, L):
         S = tf.stack(arrays, axis=1)
-        S = tf.reshape(S, tuple((S.shape[0], S.shape[1] // (L + 1), (L + 1))) + tuple(S.shape[2:]))
+        S = tf.reshape(S, (-1, S.shape[1] // (L + 1), L + 1) + tuple(S.shape[2:]))
         return S
 
     @classmethod
-- 
2.43.0


From e940e7f1128b3fa781d955761122553d030f1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 16/38] fix: center 3D filters at the origin for odd grid sizes

---
 kymatio/scattering3d/filter_bank.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/filter_bank.py b/kymatio/scattering3d/filter_bank.py
index 4994f5e..f6253ab 100644
--- a/kymatio/scattering3d/filter_bank.py
+++ b/kymatio/scattering3d/filter_bank.py
@@ -90,9 +90,9 @@ def gaussian_3d(M, N, O, sigma, fourier=True):
             that the origin is at the point [0, 0, 0]
     """
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
     if fourier:
@@ -137,9 +137,9 @@ def solid_harmonic_3d(M, N, O, sigma, l, fourier=True):
     """
     solid_harm = np.zeros((2*l+1, M, N, O), np.complex64)
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
 
-- 
2.43.0


From 4f58e0528940f38418a0d2caabc9dab888d5cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 17/38] fix: compute second-order filters at every resolution
 of the first order

---
 kymatio/scattering1d/filter_bank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/filter_bank.py b/kymatio/scattering1d/filter_bank.py
index 750e0d6..dacc7e6 100644
--- a/kymatio/scattering1d/filter_bank.py
+++ b/kymatio/scattering1d/filter_bank.py
@@ -379,8 +379,8 @@ def scattering_filter_factory(N, J, Q, T, filterbank, _reduction=np.sum):
             j = get_max_dyadic_subsampling(xi, sigma, **filterbank_kwargs)
 
             # Resample to smaller resolutions if necessary (beyond 1st layer)
-            # The idiom min(previous_J, j, 1+log2_T) implements "j1 < j2"
-            for level in range(1, min(previous_J, j, 1+log2_T)):
+            # The idiom min(1+previous_J, j, 1+log2_T) implements "j1 < j2"
+            for level in range(1, min(1+previous_J, j, 1+log2_T)):
                 psi_level_reshaped = psi_levels[0].reshape(2**level, -1)
                 psi_level = _reduction(psi_level_reshaped, axis=0)
                 psi_levels.append(psi_level)
-- 
2.43.0


From cb89f5e2ee23fe73bb82aeb8cdc605b2bed69701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 18/38] fix: report the scattering order of JTFS paths in time
 format

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 979d217..b24396a 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -380,7 +380,7 @@ def time_formatting(path, backend):
     else:
         coef_list = backend.split_frequency_axis(path["coef"])
     for i, n1 in enumerate(range(0, path["n1_max"], path["n1_stride"])):
-        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])-1}
+        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])}
         # If not spinned, X['n']=S1['n']=(n_fr,) is a 1-tuple.
         # If spinned, X['n']=Y2['n']=(n2,n_fr) is a 2-tuple.
         # In either case, we prepend n1 and define the new 'n'
-- 
2.43.0


From 61e27bdc9ed24fb3d5eaa62fc4f7ba29b160481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 19/38] fix: unpad first-order JTFS paths at the right
 resolution in time format

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index c1116b1..ff590f7 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -617,7 +617,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             #     3a. at order 1, unpad Y_1_fr at resolution log2_T
             #     3b. at order 2, unpad Y_2_fr at resolution j2
             if not self.average == 'global':
-                if not self.average and len(path['n']) > 1:
+                if not self.average and path['order'] > 1:
                     # Case 3b.
                     res = max(path['j'][-1], 0)
                 else:
-- 
2.43.0


From 16327e5d5eec09547bab6dc9b2a67ac044b894f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 20/38] fix: reshape inputs of sklearn Scattering2D to the
 padded shape with pre_pad

---
 kymatio/frontend/sklearn_frontend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 2e37527..11fd2d5 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -28,7 +28,12 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
 
     def predict(self, x):
         batch_shape = x.shape[:-1]
-        x = x.reshape((-1,) + self.shape)
+        signal_shape = self.shape
+        if getattr(self, 'pre_pad', False):
+            # The input is already padded
+            signal_shape = (self._M_padded, self._N_padded)
+
+        x = x.reshape((-1,) + signal_shape)
         Sx = self.scattering(x)
         Sx = Sx.reshape(batch_shape + (-1,))
 
-- 
2.43.0


From 80f8d5109ec05506ca22fa09fab65ec5a1ea5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 21/38] fix: let meta() follow the resolutions of the transform
 when T is small

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index ff590f7..4684c01 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -187,7 +187,7 @@ class ScatteringBase1D(ScatteringBase):
         backend = self._DryBackend()
         filters = [self.phi_f, self.psi1_f, self.psi2_f][:(1+self.max_order)]
         S_gen = scattering1d(
-            None, backend, filters, self.log2_stride, average_local=False)
+            None, backend, filters, self.log2_stride, (self.average=='local'))
         S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
         meta = dict(order=np.array([len(path['n']) for path in S]))
         meta['key'] = [path['n'] for path in S]
-- 
2.43.0


From 2164975245f2152e928bc4449cb5dd628742e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 22/38] fix: keep the frequency axis of JTFS paths with
 T='global' and joint format in torch

---
 kymatio/scattering1d/frontend/base_frontend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 4684c01..f253104 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -611,12 +611,15 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
         # First and second order
         for path in S_gen:
             # Temporal unpadding. Switch cases:
-            # 1. If averaging is global, no need for unpadding at all.
+            # 1. If averaging is global, keep the only sample there is.
             # 2. If averaging is local, unpad at resolution log2_T
             # 3. If there is no averaging, unpadding depends on order:
             #     3a. at order 1, unpad Y_1_fr at resolution log2_T
             #     3b. at order 2, unpad Y_2_fr at resolution j2
-            if not self.average == 'global':
+            if self.average == 'global':
+                # Case 1.
+                path['coef'] = self.backend.unpad(path['coef'], 0, 1)
+            else:
                 if not self.average and path['order'] > 1:
                     # Case 3b.
                     res = max(path['j'][-1], 0)
-- 
2.43.0


From 65f68d1b0c883809627b800b82138c6c6a3203c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 23/38] fix: pad the frequency axis of JTFS up, never below the
 number of first-order paths

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index f253104..c3138f9 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -564,7 +564,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
         #     2**1, 2**2, etc. up to 2**K_fr = (2**J_fr / 2**oversampling_fr)
         N_input_fr = (self.J+1) * self.Q[0]
         K_fr = max(self.J_fr - self.oversampling_fr, 0)
-        N_padded_fr_subsampled = (N_input_fr + min_to_pad_fr) // (2 ** K_fr)
+        N_padded_fr_subsampled = -(-(N_input_fr + min_to_pad_fr) // (2 ** K_fr))
         self._N_padded_fr = N_padded_fr_subsampled * (2 ** K_fr)
 
     def create_filters(self):
-- 
2.43.0


From a3fd4291b0e60cc3db04ac8433039bb5a69f2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:23 +0000
Subject: [PATCH 24/38] fix: accumulate integrals of 3D scattering in the
 precision of the input in torch

---
 kymatio/scattering3d/backend/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering3d/backend/torch_backend.py b/kymatio/scattering3d/backend/torch_backend.py
index 9410818..016231c 100644
--- a/kymatio/scattering3d/backend/torch_backend.py
+++ b/kymatio/scattering3d/backend/torch_backend.py
@@ -144,7 +144,7 @@ class TorchBackend3D(TorchBackend):
                 to the powers p (l_p norms).
         """
         integrals = torch.zeros((input_array.shape[0], len(integral_powers)),
-                device=input_array.device)
+                dtype=input_array.dtype, device=input_array.device)
         for i_q, q in enumerate(integral_powers):
             integrals[:, i_q] = (input_array ** q).view(
                 input_array.shape[0], -1).sum(1)
-- 
2.43.0


From 1badc6edb0b792083bbec84e48402452fd052a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:37 +0000
Subject: [PATCH 25/38] fix: keep the stride given at construction when
 oversampling is set

build() overwrote the stride parameter with the value implied by oversampling,
so get_params() of the scikit-learn object reported a stride that was never
given and set_params(T=...) on it failed with an incompatibility error.
---
 kymatio/scattering1d/frontend/base_frontend.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index c3138f9..ccbc8db 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -77,7 +77,6 @@ class ScatteringBase1D(ScatteringBase):
             if not self._stride in [None, 2**(self.log2_T-self._oversampling)]:
                 raise ValueError("oversampling={} and stride={}"
                     "are incompatible".format(self._oversampling, self._stride))
-            self._stride = 2 ** (self.log2_T-self._oversampling)
 
         # Compute the minimum support to pad (ideally)
         phi_f = gauss_1d(N_input, self.sigma0/self.T)
@@ -255,18 +254,22 @@ class ScatteringBase1D(ScatteringBase):
 
     @property
     def log2_stride(self):
-        if self._stride is None:
+        stride = self._stride
+        if stride is None and self._oversampling:
+            # Will be removed in v0.5
+            stride = 2**(self.log2_T-self._oversampling)
+        if stride is None:
             return self.log2_T
-        if not isinstance(self._stride, numbers.Integral):
+        if not isinstance(stride, numbers.Integral):
             raise ValueError("stride must be integer. Got: {}".format(
-                self._stride))
-        log2_stride = math.log2(self._stride)
+                stride))
+        log2_stride = math.log2(stride)
         if math.floor(log2_stride) != math.ceil(log2_stride):
             raise ValueError("stride must be a power of two. Got: {}".format(
-                self._stride))
+                stride))
         if self.average in [False, "global"]:
             raise ValueError("stride={} is incompatible with T={}.".format(
-                self._stride, self._T))
+                stride, self._T))
         return int(log2_stride)
 
     @property
-- 
2.43.0


From d17b650c8ff7799defcd05ffb41d708a518d1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:58 +0000
Subject: [PATCH 26/38] fix: rebuild Keras Scattering1D from a saved model when
 Q is a tuple

Saving a model to JSON (or .keras) turns the tuple Q into a list, which the
layer then refused when the model was loaded.
---
 kymatio/scattering1d/frontend/keras_frontend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index 0cea7d9..5c7e21f 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -40,4 +40,11 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
                 "max_order": self.max_order,
                 "oversampling": self._oversampling}
 
+    @classmethod
+    def from_config(cls, config):
+        # Saving a model to JSON turns tuples into lists
+        if isinstance(config.get("Q"), list):
+            config = {**config, "Q": tuple(config["Q"])}
+        return cls(**config)
+
 ScatteringKeras1D._document()
-- 
2.43.0


From 07b0494b7bde935268d76b34a791b73c3fcf3449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 27/38] fix: refuse samples of the wrong size in the
 scikit-learn objects

predict() reshaped any array whose total size was a multiple of the signal
size, so that a wrong number of features per sample mixed samples silently.
---
 kymatio/frontend/sklearn_frontend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 11fd2d5..5950ae8 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -1,3 +1,5 @@
+import math
+
 from sklearn.base import BaseEstimator, TransformerMixin
 
 
@@ -33,6 +35,12 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
             # The input is already padded
             signal_shape = (self._M_padded, self._N_padded)
 
+        # A sample may consist of several signals (e.g. channels)
+        signal_size = math.prod(signal_shape)
+        if len(x.shape) == 0 or x.shape[-1] % signal_size != 0:
+            raise ValueError('Samples must be flattened signals of shape {}, '
+                'got an array of shape {}.'.format(signal_shape, x.shape))
+
         x = x.reshape((-1,) + signal_shape)
         Sx = self.scattering(x)
         Sx = Sx.reshape(batch_shape + (-1,))
-- 
2.43.0


From 37a5882652ddaa2a413f3bd8fecf7a71193e7ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 28/38] fix: refuse J with 2**J above the signal length when T
 is not given

The default T=2**J was not compared with the length of the signal, and the
transform returned coefficients of length zero.
---
 kymatio/scattering1d/frontend/base_frontend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index ccbc8db..d630907 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -60,6 +60,12 @@ class ScatteringBase1D(ScatteringBase):
                 "Got: {}".format(self.shape))
         N_input = self.shape[0]
 
+        # check low-pass filter (by default, T = 2**J)
+        if self.average == 'local' and self.T > N_input:
+            raise ValueError("The support T=2**J of the low-pass filter cannot "
+                "exceed input length (got {} > {}). Reduce J or set T.".format(
+                self.T, N_input))
+
         # check oversampling (NB: this will be removed in v0.5)
         if self._oversampling is None:
             pass
-- 
2.43.0


From f2eed635ab9393efec80f21b7262ffe68611fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:47 +0000
Subject: [PATCH 29/38] fix: refuse unknown methods in NumPy and JAX
 HarmonicScattering3D

PyTorch and TensorFlow raise ValueError, NumPy and JAX ignored the parameter.
---
 kymatio/scattering3d/frontend/numpy_frontend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index c1ac321..f0a1632 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -36,6 +36,11 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
         signal_shape = input_array.shape[-3:]
 
         input_array = input_array.reshape((-1,) + signal_shape)
+
+        methods = ['integral']
+        if not self.method in methods:
+            raise ValueError('method must be in {}'.format(methods))
+
         averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-- 
2.43.0


From c415d3712245b9287c8c2d72ccdc3c54b9fa5090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 30/38] fix: refuse values of max_order other than 1 and 2

Documented as either 1 or 2; other values were accepted and ran another order,
or failed with IndexError at the first call.
---
 kymatio/scattering1d/frontend/base_frontend.py | 5 +++++
 kymatio/scattering2d/frontend/base_frontend.py | 3 +++
 kymatio/scattering3d/frontend/base_frontend.py | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index d630907..98ff631 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -60,6 +60,11 @@ class ScatteringBase1D(ScatteringBase):
                 "Got: {}".format(self.shape))
         N_input = self.shape[0]
 
+        # check max_order
+        if self.max_order not in (1, 2):
+            raise ValueError("max_order must be either 1 or 2. "
+                "Got: {}".format(self.max_order))
+
         # check low-pass filter (by default, T = 2**J)
         if self.average == 'local' and self.T > N_input:
             raise ValueError("The support T=2**J of the low-pass filter cannot "
diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index 46438c0..fb46401 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -26,6 +26,9 @@ class ScatteringBase2D(ScatteringBase):
 
         if 2 ** self.J > M or 2 ** self.J > N:
             raise RuntimeError('The smallest dimension should be larger than 2^J.')
+        if self.max_order not in (1, 2):
+            raise ValueError("max_order must be either 1 or 2. "
+                "Got: {}".format(self.max_order))
         self._M_padded, self._N_padded = compute_padding(M, N, self.J)
         # pads equally on a given side if the amount of padding to add is an even number of pixels, otherwise it adds an extra pixel
         if not self.pre_pad:
diff --git a/kymatio/scattering3d/frontend/base_frontend.py b/kymatio/scattering3d/frontend/base_frontend.py
index ea0e489..40c52ff 100644
--- a/kymatio/scattering3d/frontend/base_frontend.py
+++ b/kymatio/scattering3d/frontend/base_frontend.py
@@ -21,6 +21,9 @@ class ScatteringBase3D(ScatteringBase):
 
     def build(self):
         self.M, self.N, self.O = self.shape
+        if self.max_order not in (1, 2):
+            raise ValueError("max_order must be either 1 or 2. "
+                "Got: {}".format(self.max_order))
 
     def create_filters(self):
         self.filters = solid_harmonic_filter_bank(
-- 
2.43.0


From f8c8db17cd0338e122c991696159e7a00be81d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 31/38] fix: refuse strides larger than T

---
 kymatio/scattering1d/frontend/base_frontend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 98ff631..8eefbfd 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -281,6 +281,9 @@ class ScatteringBase1D(ScatteringBase):
         if self.average in [False, "global"]:
             raise ValueError("stride={} is incompatible with T={}.".format(
                 stride, self._T))
+        if log2_stride > self.log2_T:
+            raise ValueError("stride must not exceed T. Got: {} > {}".format(
+                stride, self.T))
         return int(log2_stride)
 
     @property
-- 
2.43.0


From 4bac0730b58b2c1a97f069190150755102392030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 32/38] fix: keep the signal shape on Keras layers rather than
 the input shape

---
 kymatio/frontend/keras_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/frontend/keras_frontend.py b/kymatio/frontend/keras_frontend.py
index 380291a..f6fea55 100644
--- a/kymatio/frontend/keras_frontend.py
+++ b/kymatio/frontend/keras_frontend.py
@@ -7,7 +7,7 @@ class ScatteringKeras(Layer):
         self.frontend_name = 'keras'
 
     def build(self, input_shape):
-        self.shape = input_shape
+        self.shape = self.S.shape
         Layer.build(self, input_shape)
 
     def scattering(self, x):
-- 
2.43.0


From 062b7acd1bf587f0355ff59f714f3b3f7eb0877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 33/38] fix: compute in single precision on double inputs in
 TensorFlow

---
 kymatio/backend/tensorflow_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kymatio/backend/tensorflow_backend.py b/kymatio/backend/tensorflow_backend.py
index fae5a33..23b6976 100644
--- a/kymatio/backend/tensorflow_backend.py
+++ b/kymatio/backend/tensorflow_backend.py
@@ -17,7 +17,9 @@ class TensorFlowBackend(NumpyBackend):
     @staticmethod
     def reshape_input(x, signal_shape):
         new_shape = tf.concat(((-1, 1,), signal_shape), 0)
-        return tf.reshape(x, new_shape)
+        x = tf.reshape(x, new_shape)
+        # Filters are in single precision
+        return tf.cast(x, tf.float32) if x.dtype == tf.float64 else x
 
     @staticmethod
     def reshape_output(S, batch_shape, n_kept_dims):
-- 
2.43.0


From 79be68cf96a53574ee60f37b5138d3faa585a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:55 +0000
Subject: [PATCH 34/38] fix: pass name through the entry points

---
 kymatio/frontend/entry.py              | 6 ++----
 kymatio/scattering1d/frontend/entry.py | 5 ++---
 kymatio/scattering2d/frontend/entry.py | 2 +-
 kymatio/scattering3d/frontend/entry.py | 4 +---
 4 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/kymatio/frontend/entry.py b/kymatio/frontend/entry.py
index 7bb8190..64a84c7 100644
--- a/kymatio/frontend/entry.py
+++ b/kymatio/frontend/entry.py
@@ -5,10 +5,8 @@ import importlib
 
 class ScatteringEntry(object):
     def __init__(self, *args, **kwargs):
-        self.name = kwargs['name']
-        self.class_name = kwargs['class_name']
-        kwargs.pop('name')
-        kwargs.pop('class_name')
+        # Keyword arguments are those of the frontend, which may include name
+        self.name, self.class_name, *args = args
 
         frontend_suffixes = {'torch' : 'Torch',
                              'numpy' : 'NumPy',
diff --git a/kymatio/scattering1d/frontend/entry.py b/kymatio/scattering1d/frontend/entry.py
index 9fd6427..2ee444e 100644
--- a/kymatio/scattering1d/frontend/entry.py
+++ b/kymatio/scattering1d/frontend/entry.py
@@ -2,11 +2,10 @@ from ...frontend.entry import ScatteringEntry
 
 class ScatteringEntry1D(ScatteringEntry):
     def __init__(self, *args, **kwargs):
-        super().__init__(name='1D', class_name='scattering1d', *args, **kwargs)
+        super().__init__('1D', 'scattering1d', *args, **kwargs)
 
 class TimeFrequencyScatteringEntry(ScatteringEntry):
     def __init__(self, *args, **kwargs):
-        super().__init__(
-            name='JTFS', class_name='scattering1d', *args, **kwargs)
+        super().__init__('JTFS', 'scattering1d', *args, **kwargs)
 
 __all__ = ['ScatteringEntry1D', 'TimeFrequencyScatteringEntry']
diff --git a/kymatio/scattering2d/frontend/entry.py b/kymatio/scattering2d/frontend/entry.py
index 2f69d06..892f6eb 100644
--- a/kymatio/scattering2d/frontend/entry.py
+++ b/kymatio/scattering2d/frontend/entry.py
@@ -2,7 +2,7 @@ from ...frontend.entry import ScatteringEntry
 
 class ScatteringEntry2D(ScatteringEntry):
     def __init__(self, *args, **kwargs):
-        super().__init__(name='2D', class_name='scattering2d', *args, **kwargs)
+        super().__init__('2D', 'scattering2d', *args, **kwargs)
 
 
 __all__ = ['ScatteringEntry2D']
diff --git a/kymatio/scattering3d/frontend/entry.py b/kymatio/scattering3d/frontend/entry.py
index 473022f..77e5258 100644
--- a/kymatio/scattering3d/frontend/entry.py
+++ b/kymatio/scattering3d/frontend/entry.py
@@ -3,9 +3,7 @@ from ...frontend.entry import ScatteringEntry
 
 class HarmonicScatteringEntry3D(ScatteringEntry):
     def __init__(self, *args, **kwargs):
-        super().__init__(name='harmonic 3D',
-                         class_name='scattering3d',
-                         *args, **kwargs)
+        super().__init__('harmonic 3D', 'scattering3d', *args, **kwargs)
 
 
 __all__ = ['HarmonicScatteringEntry3D']
-- 
2.43.0


From f8629c74d2248cfcb6a1e7371c22e0f82867bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 35/38] fix: never return a file as the cache directory

---
 kymatio/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/caching.py b/kymatio/caching.py
index caa11a7..4da466c 100644
--- a/kymatio/caching.py
+++ b/kymatio/caching.py
@@ -51,7 +51,7 @@ def get_cache_dir(name="", cache_base_dir=None, create=True):
     """
     path = os.path.join(
         find_cache_base_dir(cache_base_dir=cache_base_dir), name)
-    if os.path.exists(path):
+    if os.path.isdir(path):
         return path
     else:
         if create:
-- 
2.43.0


From 59ada34cc33e82d2ce1a380efd29bfbd7d9c936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:57 +0000
Subject: [PATCH 36/38] fix: compute double factorials above 33 without integer
 overflow

---
 kymatio/scattering3d/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering3d/utils.py b/kymatio/scattering3d/utils.py
index de1b5d5..131fb63 100644
--- a/kymatio/scattering3d/utils.py
+++ b/kymatio/scattering3d/utils.py
@@ -1,3 +1,4 @@
+import math
 import numpy as np
 import warnings
 
@@ -64,7 +65,7 @@ def get_3d_angles(cartesian_grid):
 
 def double_factorial(i):
     """Computes the double factorial of an integer."""
-    return 1 if (i < 1) else np.prod(np.arange(i, 0, -2))
+    return 1 if (i < 1) else math.prod(range(i, 0, -2))
 
 
 def sqrt(x):
-- 
2.43.0


From 2a0ef1d2e2f42e539de22220b8d0d3b8301253c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:57 +0000
Subject: [PATCH 37/38] fix: restore the floating-point error mode when sqrt()
 fails

---
 kymatio/scattering3d/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering3d/utils.py b/kymatio/scattering3d/utils.py
index 131fb63..54675ad 100644
--- a/kymatio/scattering3d/utils.py
+++ b/kymatio/scattering3d/utils.py
@@ -89,8 +89,7 @@ def sqrt(x):
     if np.isrealobj(x) and (x < 0).any():
         warnings.warn("Negative value encountered in sqrt", RuntimeWarning,
             stacklevel=1)
-    old_settings = np.seterr(invalid='ignore')
-    y = np.sqrt(x)
-    np.seterr(**old_settings)
+    with np.errstate(invalid='ignore'):
+        y = np.sqrt(x)
 
     return y
-- 
2.43.0


From ff72b2537bc65a90d3f685a7bffffdd34fe8fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:44 +0000
Subject: [PATCH 38/38] fix: log frontend imports through a named logger, not
 logging.info

logging.info() installs a handler on the root logger when there is none, so
constructing kymatio.Scattering1D() changed the logging configuration of the
whole process.
---
 kymatio/frontend/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/frontend/entry.py b/kymatio/frontend/entry.py
index 64a84c7..2c24a18 100644
--- a/kymatio/frontend/entry.py
+++ b/kymatio/frontend/entry.py
@@ -42,7 +42,7 @@ class ScatteringEntry(object):
         except Exception as e:
             raise e from RuntimeError('\nThe frontend \'' + frontend + '\' could not be correctly imported.')
 
-        logging.info('The ' + self.name + ' frontend ' + frontend + ' was imported.')
+        logging.getLogger(__name__).info('The ' + self.name + ' frontend ' + frontend + ' was imported.')
 
 
 __all__ = ['ScatteringEntry']
-- 
2.43.0

