From b926438a8be8da8baf9a6e4ac462bb8a204872da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 01/26] fix: Grid pickling refers to the Grid class

---
 spherical_functions/SWSH_grids/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherical_functions/SWSH_grids/__init__.py b/spherical_functions/SWSH_grids/__init__.py
index eae2382..3736470 100644
--- a/spherical_functions/SWSH_grids/__init__.py
+++ b/spherical_functions/SWSH_grids/__init__.py
@@ -101,14 +101,14 @@ class Grid(np.ndarray):
 
     # For pickling
     def __reduce__(self):
-        state = super(Modes, self).__reduce__()
+        state = super(Grid, self).__reduce__()
         new_attributes = state[2] + (self._metadata,)
         return (state[0], state[1], new_attributes)
 
     # For unpickling
     def __setstate__(self, state):
         self._metadata = copy.deepcopy(state[-1])
-        super(Modes, self).__setstate__(state[:-1])
+        super(Grid, self).__setstate__(state[:-1])
 
     @property
     def ndarray(self):
-- 
2.43.0


From 70a32d82623d7c12396e37218d41d94e3e7abb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 02/26] fix: Grid constructor raises the intended ValueError
 for too-small grids

---
 spherical_functions/SWSH_grids/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_grids/__init__.py b/spherical_functions/SWSH_grids/__init__.py
index 3736470..8c8f988 100644
--- a/spherical_functions/SWSH_grids/__init__.py
+++ b/spherical_functions/SWSH_grids/__init__.py
@@ -86,7 +86,7 @@ class Grid(np.ndarray):
         if spin_weight is None:
             raise ValueError("Spin weight must be specified")
         if n_theta < 2*abs(spin_weight)+1 or n_phi < 2*abs(spin_weight)+1:
-            raise ValueError(f"Input array must have at least {2*abs(s)+1} points in each direction to have any "
+            raise ValueError(f"Input array must have at least {2*abs(spin_weight)+1} points in each direction to have any "
                              f"nontrivial content for a field of spin weight {spin_weight}.")
         obj = input_array.view(cls)
         obj._metadata = metadata
-- 
2.43.0


From e8a0411d09cee12673314448b5c84fad7f60e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 03/26] fix: Grid.subtract raises the intended ValueError for
 mismatched spin weights

---
 spherical_functions/SWSH_grids/algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_grids/algebra.py b/spherical_functions/SWSH_grids/algebra.py
index bb54bd1..32d1759 100644
--- a/spherical_functions/SWSH_grids/algebra.py
+++ b/spherical_functions/SWSH_grids/algebra.py
@@ -86,7 +86,7 @@ def add(self, other):
 def subtract(self, other):
     if isinstance(other, type(self)):
         if self.s != other.s:
-            raise ValueError(f"Cannot subtract functions with different spin weights ({s} and {other.s})")
+            raise ValueError(f"Cannot subtract functions with different spin weights ({self.s} and {other.s})")
         if self.n_theta != other.n_theta or self.n_phi != other.n_phi:
             raise ValueError(f"Shape mismatch: self.shape={self.shape}; other.shape={other.shape}")
         result = self.view(np.ndarray) - other.view(np.ndarray)
-- 
2.43.0


From 694886f393b0f902772ca4e8b31c13b7dc03115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 04/26] fix: Grid arithmetic methods broadcast arrays against
 the non-grid dimensions

Grid.add, subtract, multiply and divide aligned an array argument with the
trailing (theta, phi) axes, so they disagreed with the operators and multiplied
individual grid values.
---
 spherical_functions/SWSH_grids/algebra.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/spherical_functions/SWSH_grids/algebra.py b/spherical_functions/SWSH_grids/algebra.py
index 32d1759..83836f5 100644
--- a/spherical_functions/SWSH_grids/algebra.py
+++ b/spherical_functions/SWSH_grids/algebra.py
@@ -79,8 +79,7 @@ def add(self, other):
     elif self.s != 0 and np.any(other):
         raise ValueError(f"It is not permitted to add non-zero scalars to a {type(self).__name__} object of non-zero spin weight")
     else:
-        result = self.view(np.ndarray) + other
-        return type(self)(result, **self._metadata)
+        return np.add(self, other)
 
 
 def subtract(self, other):
@@ -94,8 +93,7 @@ def subtract(self, other):
     elif self.s != 0 and np.any(other):
         raise ValueError(f"It is not permitted to subtract non-zero scalars from a {type(self).__name__} object of non-zero spin weight")
     else:
-        result = self.view(np.ndarray) - other
-        return type(self)(result, **self._metadata)
+        return np.subtract(self, other)
 
 
 def multiply(self, other, truncator=None):
@@ -121,9 +119,9 @@ def multiply(self, other, truncator=None):
         return type(self)(result, **metadata)
     else:
         if self._check_broadcasting(other):
-            return type(self)(self.view(np.ndarray) * other, **self._metadata)
+            return np.multiply(self, other)
         elif self._check_broadcasting(other, reverse=True):
-            return type(self)(other * self.view(np.ndarray), **self._metadata)
+            return np.multiply(other, self)
         else:
             raise ValueError(f"Cannot broadcast input array to this {type(self).__name__} object.  Note that the input array\n           "
                              "must broadcast to all but last two dimensions of this object; it is not allowed to\n           "
@@ -154,7 +152,7 @@ def divide(self, other):
         return type(self)(result, **metadata)
     else:
         if self._check_broadcasting(other):
-            return type(self)(self.view(np.ndarray) / other, **self._metadata)
+            return np.divide(self, other)
         else:
             raise ValueError(f"Cannot broadcast input array to this {type(self).__name__} object.  Note that the input array\n           "
                              "must broadcast to all but last two dimensions of this object; it is not allowed to\n           "
-- 
2.43.0


From 6caeec98e53a1bb50a1338ab853eb5d272d75c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 05/26] fix: Grid.modes works again

The default ell_max used undefined names, ell_max=0 was ignored, and the
metadata was the function copy.copy instead of a copy of the metadata, so every
call failed.
---
 spherical_functions/SWSH_grids/utilities.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spherical_functions/SWSH_grids/utilities.py b/spherical_functions/SWSH_grids/utilities.py
index ecc4124..8d6bdd8 100644
--- a/spherical_functions/SWSH_grids/utilities.py
+++ b/spherical_functions/SWSH_grids/utilities.py
@@ -27,10 +27,12 @@ def modes(self, ell_max=None, **kwargs):
     import numpy as np
     import spinsfast
     from .. import Modes
-    ell_max = ell_max or (max(n_phi, n_theta) - 1) // 2
-    metadata = copy.copy
-    return Modes(spinsfast.map2salm(self.view(np.ndarray), self.s, ell_max),
-                 spin_weight=self.s, ell_min=0, ell_max=ell_max, **metadata)
+    if ell_max is None:
+        ell_max = (max(self.n_phi, self.n_theta) - 1) // 2
+    metadata = copy.copy(self._metadata)
+    metadata.update(**kwargs)
+    metadata.update(spin_weight=self.s, ell_min=0, ell_max=ell_max)
+    return Modes(spinsfast.map2salm(self.view(np.ndarray), self.s, ell_max), **metadata)
 
 
 def _check_broadcasting(self, array, reverse=False):
-- 
2.43.0


From d00beb3459c5d69906cb2a7e0d34d7af60ab38ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 06/26] fix: non-integer powers of a Grid are rejected rather
 than truncated

---
 spherical_functions/SWSH_grids/ufuncs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 66bd850..9786a83 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -135,6 +135,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 exponent = int(args[1])
             except:
                 return NotImplemented
+            if exponent != args[1]:
+                return NotImplemented
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = exponent * args[0].s
             out_view = out if out is None else out[0].view(np.ndarray)
-- 
2.43.0


From 4213fa8ab2a76a67e487cbdf071885a2b3f8d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 07/26] fix: ufunc methods (reduce, accumulate, outer, at, ...)
 are not treated as plain calls

np.add.outer(m1, m2), for example, silently returned m1 + m2.
---
 spherical_functions/SWSH_grids/ufuncs.py | 7 ++++---
 spherical_functions/SWSH_modes/ufuncs.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 9786a83..76b5498 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -25,6 +25,10 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                        np.power, np.sqrt, np.square, np.reciprocal]:
         return NotImplemented
 
+    # These are only meaningful as plain calls; ufunc methods like reduce, outer, and at are not
+    if method != '__call__':
+        return NotImplemented
+
     # We will not be supporting any more ufunc keywords
     if kwargs:
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
@@ -172,7 +176,4 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     if result is NotImplemented:
         return NotImplemented
 
-    if method == 'at':
-        return
-
     return result
diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index af6ff46..ab515d6 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -25,6 +25,10 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                        np.conj, np.conjugate, np.absolute]:
         return NotImplemented
 
+    # These are only meaningful as plain calls; ufunc methods like reduce, outer, and at are not
+    if method != '__call__':
+        return NotImplemented
+
     # We will not be supporting any more ufunc keywords
     if kwargs:
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
@@ -179,7 +183,4 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     if result is NotImplemented:
         return NotImplemented
 
-    if method == 'at':
-        return
-
     return result
-- 
2.43.0


From 0a08a7b1a469277d62824259a667501068c82ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:28 +0000
Subject: [PATCH 08/26] fix: in-place and out= operations on Modes give the
 same result as ordinary ones

With an out array, sums kept stale values of out, products were added to the
previous contents of out (or written outside of it when it was too small),
results were wrong if out was also an operand, and multiplication or division
by scalars raised TypeError.  Also, np.negative(array, out=modes) used the data
of out as its argument, and np.absolute ignored out.
---
 spherical_functions/SWSH_grids/ufuncs.py |  2 +
 spherical_functions/SWSH_modes/ufuncs.py | 49 ++++++++++++++++--------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 76b5498..369b761 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -34,6 +34,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
 
     if ufunc in [np.positive, np.negative]:
+        if not isinstance(args[0], type(self)):
+            return NotImplemented
         out_view = out if out is None else out[0].view(np.ndarray)
         result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
         if out is not None and isinstance(out[0], type(self)):
diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index ab515d6..b645ff3 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -11,6 +11,17 @@ from .. import LM_total_size, LM_index
 from ..multiplication import _multiplication_helper
 
 
+def _copy_to_out(result, out):
+    """Copy result into the first element of `out` (if present), and return the array holding the result"""
+    if out is None:
+        return result
+    out_view = out[0].view(np.ndarray)
+    if out_view.shape != result.shape:
+        raise ValueError(f"Output array has shape {out_view.shape}, but the result has shape {result.shape}")
+    np.copyto(out_view, result, casting='same_kind')
+    return out_view
+
+
 def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     # These are required for basic support, but can be more-or-less passed through because they return bools
     if ufunc in [np.not_equal, np.equal, np.logical_and, np.logical_or, np.isfinite, np.isinf, np.isnan]:
@@ -34,6 +45,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
 
     if ufunc in [np.positive, np.negative]:
+        if not isinstance(args[0], type(self)):
+            return NotImplemented
         out_view = out if out is None else out[0].view(np.ndarray)
         result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
         if out is not None and isinstance(out[0], type(self)):
@@ -48,11 +61,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             ell_min = min(m1.ell_min, m2.ell_min)
             ell_max = max(m1.ell_max, m2.ell_max)
             shape = np.broadcast(m1[..., 0], m2[..., 0]).shape + (LM_total_size(ell_min, ell_max),)
-            result = out or np.zeros(shape, dtype=complex)
-            if isinstance(result, tuple):
-                result = result[0]
-            if isinstance(result, type(self)):
-                result = result.view(np.ndarray)
+            result = np.zeros(shape, dtype=complex)
             i_s1 = LM_total_size(ell_min, m1.ell_min-1)
             i_s2 = i_s1+LM_total_size(m1.ell_min, m1.ell_max)
             i_o1 = LM_total_size(ell_min, m2.ell_min-1)
@@ -62,6 +71,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 result[..., i_o1:i_o2] -= m2.view(np.ndarray)
             else:
                 result[..., i_o1:i_o2] += m2.view(np.ndarray)
+            result = _copy_to_out(result, out)
             metadata = copy.copy(self._metadata)
             metadata['spin_weight'] = s
             metadata['ell_min'] = ell_min
@@ -75,7 +85,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             scalars = np.asanyarray(args[1])
             if np.any(scalars) or not modes._check_broadcasting(scalars):
                 return NotImplemented
-            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         elif isinstance(args[1], type(self)):
@@ -83,7 +94,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             modes = args[1]
             if np.any(scalars) or not modes._check_broadcasting(scalars, reverse=True):
                 return NotImplemented
-            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         else:
@@ -103,14 +115,11 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 ]
             )
             result_shape = np.broadcast(s[..., 0], o[..., 0]).shape + (LM_total_size(result_ell_min, result_ell_max),)
-            result = out or np.zeros(result_shape, dtype=complex)
-            if isinstance(result, tuple):
-                result = result[0]
-            if isinstance(result, type(self)):
-                result = result.view(np.ndarray)
+            result = np.zeros(result_shape, dtype=complex)
             _multiplication_helper(s, args[0].ell_min, args[0].ell_max, args[0].s,
                                    o, args[1].ell_min, args[1].ell_max, args[1].s,
                                    result, result_ell_min, result_ell_max, result_s)
+            result = _copy_to_out(result, out)
             metadata = copy.copy(self._metadata)
             metadata['spin_weight'] = result_s
             metadata['ell_min'] = result_ell_min
@@ -124,7 +133,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             scalars = np.asanyarray(args[1])
             if not modes._check_broadcasting(scalars):
                 return NotImplemented
-            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         elif isinstance(args[1], type(self)):
@@ -132,7 +142,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             modes = args[1]
             if not modes._check_broadcasting(scalars, reverse=True):
                 return NotImplemented
-            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         else:
@@ -145,14 +156,15 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         scalars = np.asanyarray(args[1])
         if not modes._check_broadcasting(scalars):
             return NotImplemented
-        result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out), **self._metadata)
+        out_view = out if out is None else out[0].view(np.ndarray)
+        result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out_view), **self._metadata)
         if out is not None and isinstance(out[0], type(self)):
             out[0]._metadata = copy.copy(self._metadata)
 
     elif ufunc in [np.conj, np.conjugate]:
         if isinstance(args[0], type(self)):
             s = args[0].view(np.ndarray)
-            c = np.zeros_like(s) if out is None else out[0]
+            c = np.zeros_like(s)
             for ell in range(abs(args[0].s), args[0].ell_max+1):
                 i = LM_index(ell, 0, args[0].ell_min)
                 if args[0].s%2 == 0:
@@ -165,6 +177,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                         c[..., i_p], c[..., i_n] = np.conjugate(s[..., i_n]), np.conjugate(s[..., i_p])
                     else:
                         c[..., i_p], c[..., i_n] = -np.conjugate(s[..., i_n]), -np.conjugate(s[..., i_p])
+            c = _copy_to_out(c, out)
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = -args[0].s
             result = type(self)(c, **metadata)
@@ -174,7 +187,9 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             return NotImplemented
 
     elif ufunc is np.absolute:
-        return np.abs(args[0].ndarray)
+        if not isinstance(args[0], type(self)) or (out is not None and isinstance(out[0], type(self))):
+            return NotImplemented
+        return np.absolute(args[0].ndarray, out=out)
 
     else:
         # I thought we filtered everything else out...
-- 
2.43.0


From 7cbc331ac7d98520119a24c79d59fb02de141c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 09/26] fix: complex_powers with M=0 and with a pre-allocated
 array of the documented shape

M=0 wrote past the end of the output and returned a rotated value instead of 1,
and zpowers of shape z.shape+(M+1,) failed unless z was one-dimensional.
---
 spherical_functions/recursions/complex_powers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spherical_functions/recursions/complex_powers.py b/spherical_functions/recursions/complex_powers.py
index 1ceb1e2..8cc068b 100644
--- a/spherical_functions/recursions/complex_powers.py
+++ b/spherical_functions/recursions/complex_powers.py
@@ -38,8 +38,10 @@ def complex_powers(z, M, zpowers=None):
     """
     z = np.asarray(z, dtype=complex)
     zravel = z.ravel()
-    zpowers = zpowers if zpowers is not None else np.empty((z.size, M+1), dtype=complex)
-    _complex_powers(zravel, M, zpowers)
+    zpowers = zpowers if zpowers is not None else np.empty(z.shape+(M+1,), dtype=complex)
+    zpowers_2d = zpowers.view()
+    zpowers_2d.shape = (z.size, M+1)  # Unlike reshape, this never makes a copy
+    _complex_powers(zravel, M, zpowers_2d)
     return zpowers.reshape(z.shape+(M+1,))
 
 
@@ -53,6 +55,8 @@ def _complex_powers(zravel, M, zpowers):
             θ *= 1j
             z /= 1j
         zpowers[i, 0] = 1.0 + 0.0j
+        if M < 1:
+            continue
         zpowers[i, 1] = z
         clock = θ
         dc = -2 * np.sqrt(z).imag ** 2
-- 
2.43.0


From ccb8613f309920719f30d92237f7be6c9f192a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 10/26] fix: Wigner 3-j recursion coefficients do not overflow
 for large j

The coefficient B was returned as int32, which overflows from about j=90, giving
silently wrong 3-j symbols.
---
 spherical_functions/recursions/wigner3j.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/recursions/wigner3j.py b/spherical_functions/recursions/wigner3j.py
index 6c215a9..58365b9 100644
--- a/spherical_functions/recursions/wigner3j.py
+++ b/spherical_functions/recursions/wigner3j.py
@@ -9,7 +9,7 @@ def A(j, j2, j3, m1):
     return math.sqrt((j**2 - (j2 - j3)**2) * ((j2 + j3 + 1)**2 - j**2) * (j**2 - m1**2))
 
 
-@jit("int32(int32, int32, int32, int32, int32)")
+@jit("int64(int32, int32, int32, int32, int32)")
 def B(j, j2, j3, m2, m3):
     return (2 * j + 1) * ((m2 + m3) * (j2 * (j2 + 1) - j3 * (j3 + 1)) - (m2 - m3) * j * (j + 1))
 
-- 
2.43.0


From 45072282b26e79f5b4bf106880a86dbfc39ce8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 11/26] fix: Wigner_D_element accepts the documented (Ra, Rb,
 ell, mp, m) form

Those arguments were taken for Euler angles, because they are all numbers.
---
 spherical_functions/WignerD/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 0c70e6d..327d020 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -85,7 +85,7 @@ def Wigner_D_element(*args):
         Ra = args[0].a
         Rb = args[0].b
         mode_offset = 1
-    elif isinstance(args[0], numbers.Number) and isinstance(args[1], numbers.Number)\
+    elif len(args) in [4, 6] and isinstance(args[0], numbers.Number) and isinstance(args[1], numbers.Number)\
             and isinstance(args[2], numbers.Number):
         # UUUUGGGGLLLLYYYY.  The rotation is input as Euler angles
         R = quaternion.from_euler_angles(args[0], args[1], args[2])
-- 
2.43.0


From b757ccdda580aedd075a1d316c52ec4b3fb97042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 12/26] fix: Wigner_D_element accepts a single ell value

---
 spherical_functions/WignerD/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 327d020..23ed473 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -115,7 +115,7 @@ def Wigner_D_element(*args):
         indices = np.round(2*np.asarray(args[mode_offset])).astype(int)
         if (indices.ndim == 0 and indices.size == 1):
             # This was just a single ell value
-            twoell = indices[0]  # already multiplied by 2
+            twoell = int(indices)  # already multiplied by 2
             indices = np.array([[twoell, twomp, twom]
                                 for twomp in range(-twoell, twoell + 1, 2)
                                 for twom in range(-twoell, twoell + 1, 2)])
-- 
2.43.0


From 41091ee9d4e780c9e7d94e09cc906e8e25a1783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 13/26] fix: mixed integer and half-integer (ell, mp, m) are
 not valid indices of the D matrix

---
 spherical_functions/WignerD/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 23ed473..f9372ee 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -25,6 +25,8 @@ from .. import (jit, _Wigner_coefficient as _coeff,
 def _check_valid_indices(twoell, twomp, twom):
     if (twoell > 2*sf_ell_max or abs(twomp) > twoell or abs(twom) > twoell):
         return False
+    if ((twoell - twomp) % 2 != 0 or (twoell - twom) % 2 != 0):
+        return False
     return True
 
 
-- 
2.43.0


From f4daf80f6790664b241cc044125a5b792384a61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 14/26] fix: error_on_bad_indices can be changed after import,
 as documented

The flag was copied when the module was imported, so setting it had no effect.
---
 spherical_functions/WignerD/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index f9372ee..3421aff 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -15,9 +15,10 @@ import cmath
 import numpy as np
 import numba as nb
 import quaternion
+import spherical_functions as sf
 from .. import (jit, _Wigner_coefficient as _coeff,
                 Wigner_coefficient as coeff,
-                epsilon, error_on_bad_indices, LMpM_total_size,
+                epsilon, LMpM_total_size,
                 ell_max as sf_ell_max)
 
 
@@ -108,7 +109,7 @@ def Wigner_D_element(*args):
         # Assume these are the (ell, mp, m) indices
         ell, mp, m = args[mode_offset:]
         indices = np.array([[round(2*ell), round(2*mp), round(2*m)], ], dtype=int)
-        if (error_on_bad_indices and not _check_valid_indices(*(indices[0]))):
+        if (sf.error_on_bad_indices and not _check_valid_indices(*(indices[0]))):
             raise ValueError(
                 "(ell,mp,m)=({0},{1},{2})".format(ell, mp, m)
                 + " is not a valid set of indices for Wigner's D matrix")
@@ -131,7 +132,7 @@ def Wigner_D_element(*args):
                  for twom in range(-twoell, twoell + 1, 2)])
         elif (indices.ndim == 2):
             # This is an array of [ell,mp,m] values
-            if (error_on_bad_indices):
+            if (sf.error_on_bad_indices):
                 for twoell, twomp, twom in indices:
                     if not _check_valid_indices(twoell, twomp, twom):
                         raise ValueError(
@@ -143,7 +144,15 @@ def Wigner_D_element(*args):
         raise ValueError("Can't understand input indices")
 
     elements = np.empty((len(indices),), dtype=complex)
-    _Wigner_D_element(Ra, Rb, indices, elements)
+    if (sf.error_on_bad_indices):
+        _Wigner_D_element(Ra, Rb, indices, elements)
+    else:
+        # Elements with invalid indices are simply zero
+        valid = np.array([_check_valid_indices(*index) for index in indices], dtype=bool)
+        valid_elements = np.empty((np.count_nonzero(valid),), dtype=complex)
+        _Wigner_D_element(Ra, Rb, indices[valid], valid_elements)
+        elements[:] = 0.0
+        elements[valid] = valid_elements
 
     if (return_scalar):
         return elements[0]
-- 
2.43.0


From 237d2c63d69e7c92728ca130303bcc7713cbdf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 15/26] fix: check the range of ell in Wigner_D_matrices and in
 lists of ell values

Larger ell values read beyond the end of the coefficient table.
---
 spherical_functions/WignerD/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 3421aff..eb8d9f2 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -116,6 +116,11 @@ def Wigner_D_element(*args):
         return_scalar = True
     elif (len(args) - mode_offset == 1):
         indices = np.round(2*np.asarray(args[mode_offset])).astype(int)
+        if (indices.ndim < 2):
+            # Only ell values were input, for which there may not be any D matrix at all
+            for twoell in indices.ravel():
+                if not _check_valid_indices(twoell, twoell, twoell):
+                    raise ValueError("ell={0} is not a valid index for Wigner's D matrix".format(twoell/2))
         if (indices.ndim == 0 and indices.size == 1):
             # This was just a single ell value
             twoell = int(indices)  # already multiplied by 2
@@ -394,6 +399,9 @@ def Wigner_D_matrices(R, ell_min, ell_max):
                  + "Input values ell_min={0} and ell_max={1} are not valid.\n".format(ell_min, ell_max)
                  + "Try `Wigner_D_element` with an explicit array of `indices` for half-integers.")
         raise ValueError(error)
+    if ell_min < 0 or ell_max > sf_ell_max:
+        raise ValueError("Input values ell_min={0} and ell_max={1} are not valid;\n".format(ell_min, ell_max)
+                         + "they must be between 0 and {0}.".format(sf_ell_max))
     matrices = np.empty((LMpM_total_size(ell_min, ell_max),), dtype=complex)
     _Wigner_D_matrices(R.a, R.b, ell_min, ell_max, matrices)
     return matrices
-- 
2.43.0


From d63f43580efa5885e41e31b14f66bc325139bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 16/26] fix: Wigner_D_element with an array of rotors handles
 half integers, bad indices and shapes

Half-integer indices were truncated to integers, indices were not checked (ell
greater than the maximum reads beyond the coefficient table), and only
one-dimensional arrays of rotors were accepted.
---
 spherical_functions/WignerD/__init__.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index eb8d9f2..fe58739 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -80,9 +80,22 @@ def Wigner_D_element(*args):
     """
     # Find the rotation from the args
     if isinstance(args[0], np.ndarray):
-        elements = np.empty_like(args[0], dtype=complex)
-        _Wigner_D_elements(quaternion.as_float_array(args[0]), args[1], args[2], args[3], elements)
-        return elements
+        Rs = quaternion.as_float_array(args[0].ravel())
+        ell, mp, m = args[1:]
+        index = round(2*ell), round(2*mp), round(2*m)
+        elements = np.zeros((len(Rs),), dtype=complex)
+        if not _check_valid_indices(*index):
+            if sf.error_on_bad_indices:
+                raise ValueError(
+                    "(ell,mp,m)=({0},{1},{2})".format(ell, mp, m)
+                    + " is not a valid set of indices for Wigner's D matrix")
+        elif index[0] % 2 == 0:
+            _Wigner_D_elements(Rs, index[0]//2, index[1]//2, index[2]//2, elements)
+        else:
+            indices = np.array([index], dtype=int)
+            for i, R in enumerate(Rs):
+                _Wigner_D_element(complex(R[0], R[3]), complex(R[2], R[1]), indices, elements[i:i+1])
+        return elements.reshape(args[0].shape)
     elif isinstance(args[0], np.quaternion):
         # The rotation is input as a single quaternion
         Ra = args[0].a
-- 
2.43.0


From 43d8eac08e22513943bc45413b6cc5a84a90c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 17/26] fix: check the range of ell in SWSH and SWSH_grid

Larger ell values read beyond the end of the coefficient table.
---
 spherical_functions/SWSH/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH/__init__.py b/spherical_functions/SWSH/__init__.py
index 0761c89..e2c1cee 100644
--- a/spherical_functions/SWSH/__init__.py
+++ b/spherical_functions/SWSH/__init__.py
@@ -5,7 +5,7 @@ import math
 import cmath
 import numpy as np
 import quaternion
-from .. import (Wigner_coefficient as coeff, epsilon, LM_range, jit)
+from .. import (Wigner_coefficient as coeff, epsilon, ell_max as sf_ell_max, LM_range, jit)
 
 
 def SWSH(R, s, indices):
@@ -35,6 +35,8 @@ def SWSH(R, s, indices):
 
     """
     indices = np.asarray(indices)
+    if indices.size > 0 and np.max(indices[..., 0]) > sf_ell_max:
+        raise ValueError("SWSH is only implemented for ell <= {0}".format(sf_ell_max))
     if indices.size > 2 or not isinstance(R, np.ndarray):
         values = np.empty((indices.shape[0],), dtype=complex)
         _SWSH(R.a, R.b, s, indices, values)
@@ -77,6 +79,8 @@ def SWSH_grid(R_grid, s, ell_max):
         starting from ell=0 for compatibility with spinsfast.
 
     """
+    if ell_max > sf_ell_max:
+        raise ValueError("SWSH_grid is only implemented for ell_max <= {0}".format(sf_ell_max))
     indices = LM_range(0, ell_max)
     values = np.zeros(R_grid.shape + (indices.shape[0],), dtype=complex)
     it = np.nditer(R_grid, flags=['multi_index'])
-- 
2.43.0


From dd91b10df58b84928a3eb5f0b613b36e0391c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 18/26] fix: HCalculator with n_max=0 does not write outside of
 its workspace

---
 spherical_functions/WignerD/WignerDRecursion.py | 11 ++++++-----
 spherical_functions/recursions/wignerH.py       |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/spherical_functions/WignerD/WignerDRecursion.py b/spherical_functions/WignerD/WignerDRecursion.py
index a417b45..03a5b1f 100644
--- a/spherical_functions/WignerD/WignerDRecursion.py
+++ b/spherical_functions/WignerD/WignerDRecursion.py
@@ -447,10 +447,11 @@ class HCalculator(object):
         Hextra = Hextra.reshape((-1, cosβ.size))
         Hv = Hv.reshape((-1, cosβ.size))
         _step_1(Hnmpm)
-        _step_2(self.g, self.h, self.n_max, Hnmpm, Hextra, Hv, cosβ, sinβ)
-        _step_3(self.a, self.b, self.n_max, Hnmpm, Hextra, cosβ, sinβ)
-        _step_4(self.d, self.n_max, Hnmpm, Hv)
-        _step_5(self.d, self.n_max, Hnmpm, Hv)
-        _step_6(self.n_max, Hnmpm)
+        if self.n_max > 0:
+            _step_2(self.g, self.h, self.n_max, Hnmpm, Hextra, Hv, cosβ, sinβ)
+            _step_3(self.a, self.b, self.n_max, Hnmpm, Hextra, cosβ, sinβ)
+            _step_4(self.d, self.n_max, Hnmpm, Hv)
+            _step_5(self.d, self.n_max, Hnmpm, Hv)
+            _step_6(self.n_max, Hnmpm)
         Hnmpm.reshape((-1,)+cosβshape)
         return Hnmpm[:self.nmpm_total_size]  # Remove n_max+1 scratch space
diff --git a/spherical_functions/recursions/wignerH.py b/spherical_functions/recursions/wignerH.py
index cbac624..6d4e638 100644
--- a/spherical_functions/recursions/wignerH.py
+++ b/spherical_functions/recursions/wignerH.py
@@ -483,9 +483,10 @@ class HCalculator(object):
         Hv = workspace[self.wedge_size:self.wedge_size+(self.n_max+1)**2]
         Hextra = workspace[self.wedge_size+(self.n_max+1)**2:self.wedge_size+(self.n_max+1)**2+self.n_max+2]
         _step_1(Hwedge)
-        _step_2(self.g, self.h, self.n_max, Hwedge, Hextra, Hv, cosβ, sinβ)
-        _step_3(self.a, self.b, self.n_max, Hwedge, Hextra, cosβ, sinβ)
-        _step_4(self.d, self.n_max, Hwedge, Hv)
-        _step_5(self.d, self.n_max, Hwedge, Hv)
+        if self.n_max > 0:
+            _step_2(self.g, self.h, self.n_max, Hwedge, Hextra, Hv, cosβ, sinβ)
+            _step_3(self.a, self.b, self.n_max, Hwedge, Hextra, cosβ, sinβ)
+            _step_4(self.d, self.n_max, Hwedge, Hv)
+            _step_5(self.d, self.n_max, Hwedge, Hv)
         Hwedge.reshape((-1,)+cosβshape)
         return Hwedge
-- 
2.43.0


From 0bd01d36e1492f3ca69dbf38a1d2c52f1f08ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 19/26] fix: HCalculator returns values in the shape of its
 input, in matching order
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The final reshape was discarded, a workspace for anything but a one-dimensional
array was used with the wrong shape, and raveling in memory order mismatched
cosβ and sinβ if their memory layouts differed.
---
 spherical_functions/WignerD/WignerDRecursion.py | 7 +++----
 spherical_functions/recursions/wignerH.py       | 8 ++++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/spherical_functions/WignerD/WignerDRecursion.py b/spherical_functions/WignerD/WignerDRecursion.py
index 03a5b1f..fd5eadf 100644
--- a/spherical_functions/WignerD/WignerDRecursion.py
+++ b/spherical_functions/WignerD/WignerDRecursion.py
@@ -434,7 +434,7 @@ class HCalculator(object):
         Hnmpm = workspace if workspace is not None else self.workspace(cosβ)
         Hextra = np.zeros((self.n_max+2,) + cosβ.shape, dtype=float)
         Hv = np.zeros(((self.n_max+1)**2,) + cosβ.shape, dtype=float)
-        cosβ = cosβ.ravel(order='K')
+        cosβ = cosβ.ravel()
         if sinβ is None:
             sinβ = np.sqrt(1 - cosβ**2)
         else:
@@ -442,7 +442,7 @@ class HCalculator(object):
                 raise ValueError(
                     f"Input cosβ and sinβ must be the same shape; their shapes are {cosβshape} and {sinβ.shape}."
                 )
-            sinβ = sinβ.ravel(order='K')
+            sinβ = sinβ.ravel()
         Hnmpm = Hnmpm.reshape((-1, cosβ.size))
         Hextra = Hextra.reshape((-1, cosβ.size))
         Hv = Hv.reshape((-1, cosβ.size))
@@ -453,5 +453,4 @@ class HCalculator(object):
             _step_4(self.d, self.n_max, Hnmpm, Hv)
             _step_5(self.d, self.n_max, Hnmpm, Hv)
             _step_6(self.n_max, Hnmpm)
-        Hnmpm.reshape((-1,)+cosβshape)
-        return Hnmpm[:self.nmpm_total_size]  # Remove n_max+1 scratch space
+        return Hnmpm[:self.nmpm_total_size].reshape((-1,)+cosβshape)  # Remove n_max+1 scratch space
diff --git a/spherical_functions/recursions/wignerH.py b/spherical_functions/recursions/wignerH.py
index 6d4e638..e5c393c 100644
--- a/spherical_functions/recursions/wignerH.py
+++ b/spherical_functions/recursions/wignerH.py
@@ -469,7 +469,7 @@ class HCalculator(object):
         if np.max(cosβ) > 1.0 or np.min(cosβ) < -1.0:
             raise ValueError('Nonsensical value for range of cosβ: [{0}, {1}]'.format(np.min(cosβ), np.max(cosβ)))
         cosβshape = cosβ.shape
-        cosβ = cosβ.ravel(order='K')
+        cosβ = cosβ.ravel()
         if sinβ is None:
             sinβ = np.sqrt(1 - cosβ**2)
         else:
@@ -477,8 +477,9 @@ class HCalculator(object):
                 raise ValueError(
                     f"Input cosβ and sinβ must be the same shape; their shapes are {cosβshape} and {sinβ.shape}."
                 )
-            sinβ = sinβ.ravel(order='K')
+            sinβ = sinβ.ravel()
         workspace = workspace if workspace is not None else self.workspace(cosβ)
+        workspace = workspace.reshape((-1, cosβ.size))
         Hwedge = workspace[:self.wedge_size]
         Hv = workspace[self.wedge_size:self.wedge_size+(self.n_max+1)**2]
         Hextra = workspace[self.wedge_size+(self.n_max+1)**2:self.wedge_size+(self.n_max+1)**2+self.n_max+2]
@@ -488,5 +489,4 @@ class HCalculator(object):
             _step_3(self.a, self.b, self.n_max, Hwedge, Hextra, cosβ, sinβ)
             _step_4(self.d, self.n_max, Hwedge, Hv)
             _step_5(self.d, self.n_max, Hwedge, Hv)
-        Hwedge.reshape((-1,)+cosβshape)
-        return Hwedge
+        return Hwedge.reshape((-1,)+cosβshape)
-- 
2.43.0


From c102463e3b767cdb5354fdbe2cdbaa30ff8eec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:21 +0000
Subject: [PATCH 20/26] fix: Wigner_D_element accepts read-only and broadcast
 arrays of rotors

---
 spherical_functions/WignerD/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index fe58739..c73f2b1 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -80,7 +80,7 @@ def Wigner_D_element(*args):
     """
     # Find the rotation from the args
     if isinstance(args[0], np.ndarray):
-        Rs = quaternion.as_float_array(args[0].ravel())
+        Rs = quaternion.as_float_array(args[0].flatten())
         ell, mp, m = args[1:]
         index = round(2*ell), round(2*mp), round(2*m)
         elements = np.zeros((len(Rs),), dtype=complex)
-- 
2.43.0


From b0de0f04ce7cad335cc779e5739a8f1c18074cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:21 +0000
Subject: [PATCH 21/26] fix: SWSH_grid accepts empty arrays of rotors

---
 spherical_functions/SWSH/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH/__init__.py b/spherical_functions/SWSH/__init__.py
index e2c1cee..7ee2d66 100644
--- a/spherical_functions/SWSH/__init__.py
+++ b/spherical_functions/SWSH/__init__.py
@@ -83,7 +83,7 @@ def SWSH_grid(R_grid, s, ell_max):
         raise ValueError("SWSH_grid is only implemented for ell_max <= {0}".format(sf_ell_max))
     indices = LM_range(0, ell_max)
     values = np.zeros(R_grid.shape + (indices.shape[0],), dtype=complex)
-    it = np.nditer(R_grid, flags=['multi_index'])
+    it = np.nditer(R_grid, flags=['multi_index', 'zerosize_ok'])
     while not it.finished:
         R = it[0][()]
         _SWSH(R.a, R.b, s, indices, values[it.multi_index])
-- 
2.43.0


From 291c0dcbe8e4f4cab169a132b7554f44007b49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:43 +0000
Subject: [PATCH 22/26] fix: Wigner 3-j recursion coefficients do not overflow
 int64 for j above about 700

---
 spherical_functions/recursions/wigner3j.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/recursions/wigner3j.py b/spherical_functions/recursions/wigner3j.py
index 58365b9..385f509 100644
--- a/spherical_functions/recursions/wigner3j.py
+++ b/spherical_functions/recursions/wigner3j.py
@@ -6,7 +6,7 @@ from .. import jit, jitclass
 
 @jit("float64(int32, int32, int32, int32)")
 def A(j, j2, j3, m1):
-    return math.sqrt((j**2 - (j2 - j3)**2) * ((j2 + j3 + 1)**2 - j**2) * (j**2 - m1**2))
+    return math.sqrt(float(j**2 - (j2 - j3)**2) * ((j2 + j3 + 1)**2 - j**2) * (j**2 - m1**2))
 
 
 @jit("int64(int32, int32, int32, int32, int32)")
-- 
2.43.0


From ccd410bf719c625ec4f8b3f9ed5f1e2cef9469de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:10 +0000
Subject: [PATCH 23/26] fix: signs of Wigner 3-j symbols when the last ones
 underflow

---
 spherical_functions/recursions/wigner3j.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/recursions/wigner3j.py b/spherical_functions/recursions/wigner3j.py
index 385f509..74b7faf 100644
--- a/spherical_functions/recursions/wigner3j.py
+++ b/spherical_functions/recursions/wigner3j.py
@@ -37,7 +37,11 @@ def normalize(f, j_min, j_max):
 
 @jit("void(float64[:], int32, int32, int32, int32, int32, int32)")
 def determine_signs(f, j_min, j_max, j2, j3, m2, m3):
-    if (f[j_max] < 0.0 and (-1)**(j2-j3+m2+m3) > 0) or (f[j_max] > 0.0 and (-1)**(j2-j3+m2+m3) < 0):
+    # The last elements may have underflowed to 0, in which case they all have the sign of the last nonzero one
+    j = j_max
+    while j > j_min and f[j] == 0.0:
+        j -= 1
+    if (f[j] < 0.0 and (-1)**(j2-j3+m2+m3) > 0) or (f[j] > 0.0 and (-1)**(j2-j3+m2+m3) < 0):
         f[j_min:j_max+1] *= -1.0
 
 
-- 
2.43.0


From 852cbb11f3e92273eed97e09301450e7f705f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:48 +0000
Subject: [PATCH 24/26] fix: Grid operations whose result is too small for its
 spin weight leave the output alone

---
 spherical_functions/SWSH_grids/ufuncs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 369b761..814330b 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -9,6 +9,13 @@ import copy
 import numpy as np
 
 
+def _check_spin_weight(grid, spin_weight):
+    """Raise ValueError if grid is too small for spin_weight, so that no output is overwritten in that case"""
+    n = 2*abs(spin_weight)+1
+    if grid.n_theta < n or grid.n_phi < n:
+        raise ValueError(f"A {type(grid).__name__} with shape {grid.shape} is too small for spin weight {spin_weight}")
+
+
 def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     # These are required for basic support, but can be more-or-less passed through because they return bools
     if ufunc in [np.greater, np.greater_equal, np.less, np.less_equal, np.not_equal, np.equal,
@@ -80,6 +87,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             if g1.n_theta != g2.n_theta or g1.n_phi != g2.n_phi:
                 raise ValueError(f"Shape mismatch: grid1.shape={g1.shape}; grid2.shape={g2.shape}")
             result_s = g1.s + g2.s if ufunc is np.multiply else g1.s - g2.s
+            _check_spin_weight(g1, result_s)
             result_metadata = copy.copy(g1._metadata)
             result_metadata['spin_weight'] = result_s
             out_view = out if out is None else out[0].view(np.ndarray)
@@ -145,6 +153,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 return NotImplemented
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = exponent * args[0].s
+            _check_spin_weight(args[0], exponent * args[0].s)
             out_view = out if out is None else out[0].view(np.ndarray)
             result = type(self)(np.power(args[0].view(np.ndarray), exponent, out=out_view), **metadata)
             if out is not None and isinstance(out[0], type(self)):
@@ -164,6 +173,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 new_spin = -args[0].s
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = new_spin
+            _check_spin_weight(args[0], new_spin)
             out_view = out if out is None else out[0].view(np.ndarray)
             result = type(self)(ufunc(args[0].view(np.ndarray), out=out_view), **metadata)
             if out is not None and isinstance(out[0], type(self)):
-- 
2.43.0


From e1113cec861f474d79a99381f5f4877a28a5ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 25/26] =?UTF-8?q?fix:=20HCalculator=20accepts=20scalars=20?=
 =?UTF-8?q?and=20lists=20for=20sin=CE=B2=20as=20for=20cos=CE=B2?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 spherical_functions/WignerD/WignerDRecursion.py | 2 ++
 spherical_functions/recursions/wignerH.py       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/spherical_functions/WignerD/WignerDRecursion.py b/spherical_functions/WignerD/WignerDRecursion.py
index fd5eadf..4438f7a 100644
--- a/spherical_functions/WignerD/WignerDRecursion.py
+++ b/spherical_functions/WignerD/WignerDRecursion.py
@@ -424,6 +424,7 @@ class HCalculator(object):
 
     def workspace(self, cosβ):
         """Return a new workspace sized for cosβ."""
+        cosβ = np.asarray(cosβ, dtype=float)
         return np.zeros((self.nmpm_total_size,) + cosβ.shape, dtype=float)
 
     def __call__(self, cosβ, sinβ=None, workspace=None):
@@ -438,6 +439,7 @@ class HCalculator(object):
         if sinβ is None:
             sinβ = np.sqrt(1 - cosβ**2)
         else:
+            sinβ = np.asarray(sinβ, dtype=float)
             if sinβ.shape != cosβshape:
                 raise ValueError(
                     f"Input cosβ and sinβ must be the same shape; their shapes are {cosβshape} and {sinβ.shape}."
diff --git a/spherical_functions/recursions/wignerH.py b/spherical_functions/recursions/wignerH.py
index e5c393c..5935e8f 100644
--- a/spherical_functions/recursions/wignerH.py
+++ b/spherical_functions/recursions/wignerH.py
@@ -473,6 +473,7 @@ class HCalculator(object):
         if sinβ is None:
             sinβ = np.sqrt(1 - cosβ**2)
         else:
+            sinβ = np.asarray(sinβ, dtype=float)
             if sinβ.shape != cosβshape:
                 raise ValueError(
                     f"Input cosβ and sinβ must be the same shape; their shapes are {cosβshape} and {sinβ.shape}."
-- 
2.43.0


From 22e8ccfd7ca4d656b2b71f11df0d7d8df64fb9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 26/26] fix: Wigner 3-j symbols keep their accuracy when the
 recursions are matched near a node

---
 spherical_functions/recursions/wigner3j.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/recursions/wigner3j.py b/spherical_functions/recursions/wigner3j.py
index 74b7faf..1b3f26e 100644
--- a/spherical_functions/recursions/wigner3j.py
+++ b/spherical_functions/recursions/wigner3j.py
@@ -250,7 +250,7 @@ class Wigner3jCalculator(object):
                     j_mid = j + 1
                     break
             F_minus_j_mid = F_minus[j_mid]
-            if F_minus[j_mid - 1] != 0.0 and abs(F_minus_j_mid / F_minus[j_mid - 1]) < 1.0e-6:
+            if F_minus[j_mid - 1] != 0.0 and abs(F_minus_j_mid / F_minus[j_mid - 1]) < 0.1:
                 j_mid -= 1
                 F_minus_j_mid = F_minus[j_mid]
             for j in range(j_plus, j_mid, -1):
-- 
2.43.0

