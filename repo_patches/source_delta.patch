From a86fcd7ce7f89d666da46b4f4246e5e182d29b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 01/60] fix: update units of in-place operations and ufunc out
 arguments with NumPy 2

With NumPy >= 2 __array_wrap__ is also called for an out argument that is
already a Quantity, so q *= 2*s, np.multiply(a, b, out=q) etc. changed the
numbers but left the units alone (and did not check them). Apply the unit
rule in that case too, and guard //= through a view like the other
unit-changing in-place operators.
---
 quantities/quantity.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 74a425f..92e4f69 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -307,6 +307,10 @@ class Quantity(np.ndarray):
         if uf.__name__.startswith('is'):
             return obj
 
+        if not any(isinstance(o, Quantity) for o in objs[:uf.nin]):
+            # only the `out` argument is a Quantity
+            objs = (Quantity(objs[0]), ) + tuple(objs[1:])
+
         try:
             res._dimensionality = p_dict[uf](*objs)
         except KeyError:
@@ -327,7 +331,10 @@ class Quantity(np.ndarray):
                 return obj
         # For NumPy > 2.0 we either do the prepare or the wrap
         else:
-            if not isinstance(obj, Quantity):
+            if not isinstance(obj, Quantity) or context is not None:
+                # note that with a context, `obj` is a Quantity if it was
+                # passed in as the `out` argument (e.g. for in-place
+                # operations), in which case its units must be updated
                 return self.__array_prepare__(obj, context)
             else:
                 return super().__array_wrap__(obj, context, return_scalar)
@@ -390,6 +397,11 @@ class Quantity(np.ndarray):
     def __itruediv__(self, other):
         return super().__itruediv__(other)
 
+    @with_doc(np.ndarray.__ifloordiv__)
+    @protected_multiplication
+    def __ifloordiv__(self, other):
+        return super().__ifloordiv__(other)
+
     @with_doc(np.ndarray.__rtruediv__)
     def __rtruediv__(self, other):
         return np.true_divide(other, self)
@@ -657,7 +669,7 @@ class Quantity(np.ndarray):
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
-            out
+            None if out is None else out.magnitude
         )
         dim = self.dimensionality
         if out is None:
@@ -716,7 +728,7 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.var(axis, dtype, out, ddof)
+        ret = self.magnitude.var(axis, dtype, None if out is None else out.magnitude, ddof)
         dim = self._dimensionality**2
         if out is None:
             return Quantity(ret, dim)
@@ -727,7 +739,7 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.std)
     def std(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.std(axis, dtype, out, ddof)
+        ret = self.magnitude.std(axis, dtype, None if out is None else out.magnitude, ddof)
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-- 
2.43.0


From 6f4eeea65bc3eab0bf71b7f01bfc24204cbbf586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 02/60] fix: make copies of quantities, uncertain quantities
 and units independent

copy.deepcopy(q) shared its memory with q, deep copies and copies of
uncertain quantities dropped or shared the uncertainty, and copying units
produced broken objects or (dimensionless, dimensionalities) raised.
---
 quantities/quantity.py          |  7 +++++--
 quantities/uncertainquantity.py | 20 +++++++++++++++++++-
 quantities/unitquantity.py      | 11 +++++++++++
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 92e4f69..7373bb0 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -817,8 +817,11 @@ class Quantity(np.ndarray):
                 state)
 
     def __deepcopy__(self, memo_dict):
-        # constructor copies by default
-        return Quantity(self.magnitude, self.dimensionality)
+        # ndarray.__deepcopy__ copies the data and turns scalars into
+        # plain arrays, so wrap its result again
+        return Quantity(
+            copy.deepcopy(self.magnitude, memo_dict), self.dimensionality
+        )
 
 
 def _reconstruct_quantity(subtype, baseclass, baseshape, basetype,):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 319a6cc..91f2b62 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -1,9 +1,11 @@
 """
 """
 
-import numpy as np
+import copy
 import warnings
 
+import numpy as np
+
 from . import markup, QuantitiesDeprecationWarning
 from .quantity import Quantity, scale_other_units
 from .registry import unit_registry
@@ -284,3 +286,19 @@ class UncertainQuantity(Quantity):
         reconstruct, reconstruct_args, state = super().__reduce__()
         state = state + (self._uncertainty,)
         return reconstruct, reconstruct_args, state
+
+    def __copy__(self):
+        return self.copy()
+
+    def copy(self, order='C'):
+        ret = super().copy(order)
+        ret._uncertainty = self._uncertainty.copy(order)
+        return ret
+
+    def __deepcopy__(self, memo_dict):
+        return UncertainQuantity(
+            copy.deepcopy(self.magnitude, memo_dict),
+            self.dimensionality,
+            copy.deepcopy(self.uncertainty, memo_dict),
+            dtype=self.dtype
+        )
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d5487fc..e61cd3c 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -284,6 +284,14 @@ class UnitQuantity(Quantity):
                 )
             )
 
+    # units are immutable and unique, like ints or functions
+
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo_dict):
+        return self
+
 unit_registry['UnitQuantity'] = UnitQuantity
 
 
@@ -434,6 +442,9 @@ class Dimensionless(UnitQuantity):
             self.__getstate__()
         )
 
+    def copy(self):
+        return type(self)(self._name)
+
     @property
     def _dimensionality(self):
         return Dimensionality()
-- 
2.43.0


From 69a92fe71f8e0f0295624d4e02e7b0993e3f0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 03/60] fix: convert and construct uncertain quantities
 together with their uncertainty

Assigning units raised AttributeError, as did UncertainQuantity(U) and
UncertainQuantity(pq.m); astype dropped the uncertainty and, for scalars
and units, ignored the dtype; rescale() required an argument.
---
 quantities/quantity.py          |  6 +++---
 quantities/uncertainquantity.py | 22 ++++++++++++++--------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 7373bb0..e64cee3 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -124,7 +124,7 @@ class Quantity(np.ndarray):
             if units:
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
-                return 1*data
+                return Quantity.__new__(cls, 1.0, data.dimensionality, dtype)
             return np.asanyarray(data, dtype=dtype).view(cls)
 
         ret = np.asarray(data, dtype=dtype).view(cls)
@@ -285,9 +285,9 @@ class Quantity(np.ndarray):
         # might be related to numpy ticket # 826
         if not isinstance(ret, type(self)):
             if self.__array_priority__ >= Quantity.__array_priority__:
-                ret = type(self)(ret, self._dimensionality, dtype=self.dtype)
+                ret = type(self)(ret, self._dimensionality, dtype=ret.dtype)
             else:
-                ret = Quantity(ret, self._dimensionality, dtype=self.dtype)
+                ret = Quantity(ret, self._dimensionality, dtype=ret.dtype)
 
         return ret
 
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 91f2b62..44fdf43 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -28,17 +28,14 @@ class UncertainQuantity(Quantity):
         if uncertainty is not None:
             ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
         elif isinstance(data, UncertainQuantity):
-            is_copy = id(data) == id(ret)
-            if is_copy or ret._dimensionality != uncertainty._dimensionality:
-                uncertainty = data.uncertainty.rescale(ret.units)
-            ret.uncertainty = uncertainty
+            ret.uncertainty = data.uncertainty.rescale(ret.units)
 
         return ret
 
     @Quantity.units.setter  # type: ignore[attr-defined]
     def units(self, units):
-        super()._set_units(units)
-        self.uncertainty.units = self._dimensionality
+        Quantity.units.fset(self, units)
+        self._uncertainty = self._uncertainty.rescale(self._dimensionality)
 
     @property
     def _reference(self):
@@ -72,12 +69,21 @@ class UncertainQuantity(Quantity):
         return self.uncertainty.magnitude/self.magnitude
 
     @with_doc(Quantity.rescale, use_header=False)
-    def rescale(self, units, dtype=None):
+    def rescale(self, units=None, dtype=None):
         cls = UncertainQuantity
         ret = super(cls, self).rescale(units, dtype=dtype).view(cls)
-        ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
+        ret.uncertainty = self.uncertainty.rescale(
+            ret._dimensionality, dtype=dtype
+        )
         return ret
 
+    @with_doc(Quantity.astype, use_header=False)
+    def astype(self, dtype=None, **kwargs):
+        ret = self.magnitude.astype(dtype, **kwargs)
+        return UncertainQuantity(
+            ret, self._dimensionality, self.uncertainty, dtype=ret.dtype
+        )
+
     def __array_finalize__(self, obj):
         Quantity.__array_finalize__(self, obj)
         self._uncertainty = getattr(
-- 
2.43.0


From a036c3007bd4c017d75b455027b9bbb70478c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 04/60] fix: propagate uncertainties with certain operands,
 zeros and signs

Adding a certain quantity raised AttributeError, unit*U and unit/U lost the
uncertainty, and products, quotients and powers gave negative uncertainties
for negative results and NaN at zero.
---
 quantities/uncertainquantity.py | 43 ++++++++++++++++++---------------
 quantities/unitquantity.py      | 12 ++++-----
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 44fdf43..d0c6e7d 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -11,6 +11,14 @@ from .quantity import Quantity, scale_other_units
 from .registry import unit_registry
 from .decorators import with_doc
 
+def _get_uncertainty(q):
+    """The uncertainty of a quantity, which is zero for ordinary ones"""
+    try:
+        return q.uncertainty
+    except AttributeError:
+        return Quantity(np.zeros(q.shape), q.dimensionality)
+
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -99,7 +107,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __add__(self, other):
         res = super().__add__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
+        u = np.hypot(self.uncertainty, _get_uncertainty(other))
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__radd__, use_header=False)
@@ -111,7 +119,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __sub__(self, other):
         res = super().__sub__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
+        u = np.hypot(self.uncertainty, _get_uncertainty(other))
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__rsub__, use_header=False)
@@ -125,14 +133,11 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
         res = super().__mul__(other)
-        try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
-        except AttributeError:
-            other = np.asanyarray(other)
-            u = (self.uncertainty**2*other**2)**0.5
+        other = np.asanyarray(other)
+        o = other.view(Quantity) if isinstance(other, Quantity) else other
+        u = abs(self.uncertainty * o)
+        if isinstance(other, UncertainQuantity):
+            u = np.hypot(u, abs(self.view(Quantity) * other.uncertainty))
 
         res._uncertainty = u
         return res
@@ -147,14 +152,11 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
         res = super().__truediv__(other)
-        try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
-        except AttributeError:
-            other = np.asanyarray(other)
-            u = (self.uncertainty**2/other**2)**0.5
+        other = np.asanyarray(other)
+        o = other.view(Quantity) if isinstance(other, Quantity) else other
+        u = abs(self.uncertainty / o)
+        if isinstance(other, UncertainQuantity):
+            u = np.hypot(u, abs(res.view(Quantity) * other.uncertainty / o))
 
         res._uncertainty = u
         return res
@@ -170,7 +172,10 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
         res = super().__pow__(other)
-        res.uncertainty = res.view(Quantity) * other * self.relative_uncertainty
+        n = np.asarray(other)
+        res.uncertainty = abs(
+            n * self.view(Quantity)**(n - 1) * self.uncertainty
+        )
         return res
 
     @with_doc(Quantity.__getitem__, use_header=False)
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index e61cd3c..54ec25f 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -167,7 +167,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__add__, use_header=False)
     def __add__(self, other):
-        return self.view(Quantity).__add__(other)
+        return self.view(Quantity) + other
 
     @with_doc(Quantity.__radd__, use_header=False)
     def __radd__(self, other):
@@ -178,7 +178,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__sub__, use_header=False)
     def __sub__(self, other):
-        return self.view(Quantity).__sub__(other)
+        return self.view(Quantity) - other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rsub__(self, other):
@@ -189,7 +189,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mod__, use_header=False)
     def __mod__(self, other):
-        return self.view(Quantity).__mod__(other)
+        return self.view(Quantity) % other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rmod__(self, other):
@@ -200,7 +200,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
-        return self.view(Quantity).__mul__(other)
+        return self.view(Quantity) * other
 
     @with_doc(Quantity.__rmul__, use_header=False)
     def __rmul__(self, other):
@@ -208,7 +208,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
-        return self.view(Quantity).__truediv__(other)
+        return self.view(Quantity) / other
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
@@ -216,7 +216,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
-        return self.view(Quantity).__pow__(other)
+        return self.view(Quantity) ** other
 
     @with_doc(Quantity.__rpow__, use_header=False)
     def __rpow__(self, other):
-- 
2.43.0


From 153393fb2fcdd1c468371b39eebf2dfd9e45fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 05/60] fix: keep uncertainties in step in in-place operations,
 indexing and reductions

In-place operators and item assignment changed the value but not the
uncertainty, a slice could be given other units than its base, max/min and
their arg- and nan-variants ignored axis, and the nan-reductions counted
the uncertainty of skipped elements.
---
 quantities/uncertainquantity.py | 108 +++++++++++++++++++++++++-------
 1 file changed, 87 insertions(+), 21 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index d0c6e7d..647543a 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -7,7 +7,10 @@ import warnings
 import numpy as np
 
 from . import markup, QuantitiesDeprecationWarning
-from .quantity import Quantity, scale_other_units
+from .quantity import (
+    Quantity, check_uniform, protected_multiplication, protected_power,
+    scale_other_units
+)
 from .registry import unit_registry
 from .decorators import with_doc
 
@@ -68,9 +71,8 @@ class UncertainQuantity(Quantity):
             assert self.shape == uncertainty.shape
         except AssertionError:
             raise ValueError('data and uncertainty must have identical shape')
-        if uncertainty._dimensionality != self._dimensionality:
-            uncertainty = uncertainty.rescale(self._dimensionality)
-        self._uncertainty = uncertainty
+        # always a copy, it may be changed in place later on
+        self._uncertainty = uncertainty.rescale(self._dimensionality)
 
     @property
     def relative_uncertainty(self):
@@ -173,17 +175,66 @@ class UncertainQuantity(Quantity):
     def __pow__(self, other):
         res = super().__pow__(other)
         n = np.asarray(other)
+        if not n.any():
+            res.uncertainty = res.view(Quantity) * 0
+            return res
         res.uncertainty = abs(
             n * self.view(Quantity)**(n - 1) * self.uncertainty
         )
         return res
 
+    def _update(self, res):
+        # used by the in-place operators: take over the result
+        self.magnitude[...] = res.magnitude
+        self._dimensionality = res.dimensionality
+        self.uncertainty.magnitude[...] = res.uncertainty.magnitude
+        self._uncertainty = Quantity(
+            self.uncertainty.magnitude, self._dimensionality
+        )
+        return self
+
+    @with_doc(Quantity.__iadd__, use_header=False)
+    def __iadd__(self, other):
+        return self._update(self + other)
+
+    @with_doc(Quantity.__isub__, use_header=False)
+    def __isub__(self, other):
+        return self._update(self - other)
+
+    @with_doc(Quantity.__imul__, use_header=False)
+    @protected_multiplication
+    def __imul__(self, other):
+        return self._update(self * other)
+
+    @with_doc(Quantity.__itruediv__, use_header=False)
+    @protected_multiplication
+    def __itruediv__(self, other):
+        return self._update(self / other)
+
+    @with_doc(Quantity.__ipow__, use_header=False)
+    @check_uniform
+    @protected_power
+    def __ipow__(self, other):
+        return self._update(self ** other)
+
+    @with_doc(Quantity.__setitem__, use_header=False)
+    def __setitem__(self, key, value):
+        if not isinstance(value, Quantity):
+            value = Quantity(value)
+        value = value.rescale(self._dimensionality, dtype='d')
+        uncertainty = _get_uncertainty(value)
+        self.magnitude[key] = value.magnitude
+        self.uncertainty.magnitude[key] = uncertainty.magnitude
+
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
+        ret = super().__getitem__(key)
+        uncertainty = self.uncertainty[key]
+        if isinstance(ret, UncertainQuantity):
+            ret._uncertainty = uncertainty
+            return ret
         return UncertainQuantity(
-            self.magnitude[key],
-            self._dimensionality,
-            self.uncertainty[key]
+            ret.magnitude, self._dimensionality, uncertainty, dtype=ret.dtype
         )
 
     @with_doc(Quantity.__repr__, use_header=False)
@@ -210,6 +261,12 @@ class UncertainQuantity(Quantity):
             return s.replace('+/-', '±').replace(' sigma', 'σ')
         return s
 
+    def _valid_uncertainty(self):
+        # elements which are skipped by the nan-functions don't contribute
+        return np.where(
+            np.isnan(self.magnitude), 0, np.nan_to_num(self.uncertainty.magnitude)
+        )
+
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
@@ -223,7 +280,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nansum(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            (np.nansum(self.uncertainty.magnitude**2, axis))**0.5
+            (np.sum(self._valid_uncertainty()**2, axis))**0.5
         )
 
     @with_doc(np.ndarray.mean)
@@ -240,48 +297,57 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nanmean(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            ((1.0/size)**2 * np.nansum(np.nan_to_num(self.uncertainty.magnitude)**2, axis))**0.5
+            ((1.0/size)**2 * np.sum(self._valid_uncertainty()**2, axis))**0.5
         )
 
     @with_doc(np.sqrt)
     def sqrt(self, out=None):
         return self**0.5
 
+    def _take(self, idx, axis):
+        # the element(s) found by one of the arg-functions
+        if axis is None:
+            return self[np.unravel_index(idx, self.shape)]
+        idx = np.expand_dims(idx, axis)
+        return UncertainQuantity(
+            np.take_along_axis(self.magnitude, idx, axis).squeeze(axis),
+            self._dimensionality,
+            np.take_along_axis(
+                self.uncertainty.magnitude, idx, axis
+            ).squeeze(axis)
+        )
+
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._take(np.argmax(self.magnitude, axis), axis)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._take(np.nanargmax(self.magnitude, axis), axis)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._take(np.argmin(self.magnitude, axis), axis)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._take(np.nanargmin(self.magnitude, axis), axis)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-        return self.magnitude.argmin()
+        return self.magnitude.argmin(axis)
 
     @with_doc(np.ndarray.argmax)
     def argmax(self,axis=None, out=None):
-        return self.magnitude.argmax()
+        return self.magnitude.argmax(axis)
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis)
 
     def __setstate__(self, state):
         ndarray_state = state[:-2]
-- 
2.43.0


From d5dbf767173cef61c74ae53793bb3d763ddc8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 06/60] fix: format exponents ending in zero and fractional
 exponents correctly
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

m**10 was printed as m**1, m**12.5 as m¹2.5 in the unicode form, and the
LaTeX and HTML forms of m**0.5 raised only the digits before the decimal
point; a division within a compound unit broke the LaTeX fraction.
---
 quantities/markup.py | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index d8d4284..4f739a2 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -29,8 +29,15 @@ config = _Config()
 
 superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
 
+def format_exponent(d):
+    # str(2.0) is '2.0', but an exponent of 10 has to keep its zero
+    res = str(d)
+    if '.' in res and 'e' not in res:
+        res = res.rstrip('0').rstrip('.')
+    return res
+
 def superscript(val):
-    items = re.split(r'\*{2}([\d]+)(?!\.)', val)
+    items = re.split(r'\*{2}([\d]+)(?![\d.e])', val)
     ret = []
     while items:
         try:
@@ -61,12 +68,12 @@ def format_units(udict):
             u = key.symbol
         if d>0:
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**' + format_exponent(d)
             num.append(u)
         elif d<0:
             d = -d
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**' + format_exponent(d)
             den.append(u)
     res = '*'.join(num)
     if len(den):
@@ -84,6 +91,24 @@ def format_units_unicode(udict):
     return res
 
 
+# an exponent, as in m**2, m**0.5, m**1e-05 or, in compound units, m**-1
+exponent = r'\*{2,2}(?P<exp>-?\d+(\.\d+)?(e[+-]?\d+)?)'
+
+def split_fraction(res):
+    '''
+    split num/den, ignoring any division within the parentheses of a
+    compound unit
+    '''
+    depth = 0
+    for i, c in enumerate(res):
+        if c == '(':
+            depth += 1
+        elif c == ')':
+            depth -= 1
+        elif c == '/' and depth == 0:
+            return res[:i], res[i+1:]
+    return res, None
+
 def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     '''
     Replace the units string provided with an equivalent latex string.
@@ -117,9 +142,11 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Not a compound unit
         compound = False
         # Replace division (num/den) with \frac{num}{den}
-        res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
+        num, den = split_fraction(res)
+        if den is not None:
+            res = r'\frac{%s}{%s}' % (num, den)
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'^{\g<exp>}',res)
+    res = re.sub(exponent,r'^{\g<exp>}',res)
     # Remove multiplication signs
     res = re.sub(r'\*','{'+mult+'}',res)
     if paren and not compound:
@@ -152,7 +179,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
         # Not a compound unit
         compound = False
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'<sup>\g<exp></sup>',res)
+    res = re.sub(exponent,r'<sup>\g<exp></sup>',res)
     # Remove multiplication signs
     res = re.sub(r'\*',mult,res)
     if paren and not compound:
-- 
2.43.0


From 376da2e7568f364540e0d2b52ee77f279e7e9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 07/60] fix: parse keyword symbols and chained dots, reject
 units with a factor

'in' and 'as' could not be used in unit expressions, 'm.s.A' was rejected,
and Quantity(1, '2*m') or q.rescale('2*m') silently dropped the factor.
---
 quantities/quantity.py | 5 +++--
 quantities/registry.py | 9 +++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index e64cee3..02914ce 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -31,9 +31,10 @@ def validate_unit_quantity(value):
 def validate_dimensionality(value):
     if isinstance(value, str):
         try:
-            return unit_registry[value].dimensionality
+            value = unit_registry[value]
         except (KeyError, UnicodeDecodeError):
-            return unit_registry[str(value)].dimensionality
+            value = unit_registry[str(value)]
+        return validate_unit_quantity(value).dimensionality
     elif isinstance(value, Quantity):
         validate_unit_quantity(value)
         return value.dimensionality
diff --git a/quantities/registry.py b/quantities/registry.py
index 7603965..8da5ddd 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -59,7 +59,10 @@ class UnitRegistry:
                 )
             self.__context[string] = val
 
-    __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
+    __regex = re.compile(r'([A-Za-z])\.(?=[A-Za-z])')
+    # symbols which can not be used in expressions since they are keywords
+    __keywords = re.compile(r'\b(in|as)\b')
+    __keyword_units = {'in': 'inch', 'as': 'attosecond'}
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -72,12 +75,14 @@ class UnitRegistry:
         """Parses a string description of a unit e.g., 'g/cc'"""
 
         label = self.__regex.sub(
-            r"\g<1>*\g<2>", label.replace('^', '**').replace('·', '*'))
+            r"\g<1>*", label.replace('^', '**').replace('·', '*'))
 
         # make sure we can parse the label ....
         if label == '': label = 'dimensionless'
         if "%" in label: label = label.replace("%", "percent")
         if label.lower() == "in": label = "inch"
+        label = self.__keywords.sub(
+            lambda match: self.__keyword_units[match.group()], label)
 
         return self.__registry[label]
 
-- 
2.43.0


From b36aec1130770fd6dab7b9379c8a3fdf0f75dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 08/60] fix: register all labels of a unit atomically and
 refuse redefinitions

A refused registration left some of its labels behind, two threads could
both register a label, and redefining a unit under its own name with
another value was silently accepted.
---
 quantities/registry.py     | 27 +++++++++++++++++++++++----
 quantities/unitquantity.py |  8 ++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 8da5ddd..5a150ee 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -3,6 +3,7 @@
 
 import ast
 import re
+import threading
 
 
 class UnitRegistry:
@@ -25,6 +26,7 @@ class UnitRegistry:
         def __init__(self):
             self.__dict__ = self.__shared_state
             self.__context = {}
+            self.__lock = threading.RLock()
 
         def __getitem__(self, string):
             # This approach to avoiding arbitrary evaluation of code is based on https://stackoverflow.com/a/11952618 
@@ -46,18 +48,35 @@ class UnitRegistry:
                 # could return self['UnitQuantity'](string)
                 raise LookupError('Unable to parse units: "%s"' % string)
 
-        def __setitem__(self, string, val):
+        def __check(self, string, val):
+            """Return True if the label still has to be registered"""
             assert isinstance(string, str)
             try:
                 assert string not in self.__context
             except AssertionError:
-                if val == self.__context[string]:
-                    return
+                # units of the same name compare equal, so make sure that
+                # they also have the same definition
+                other = self.__context[string]
+                if val == other and (
+                    getattr(val, '_reference', val)
+                    == getattr(other, '_reference', other)
+                ):
+                    return False
                 raise KeyError(
                     '%s has already been registered for %s'
                     % (string, self.__context[string])
                 )
-            self.__context[string] = val
+            return True
+
+        def __setitem__(self, string, val):
+            self.register([string], val)
+
+        def register(self, labels, val):
+            """Register all the labels or, in case of an error, none"""
+            with self.__lock:
+                self.__context.update(
+                    {label: val for label in labels if self.__check(label, val)}
+                )
 
     __regex = re.compile(r'([A-Za-z])\.(?=[A-Za-z])')
     # symbols which can not be used in expressions since they are keywords
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 54ec25f..e50ce12 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -73,11 +73,11 @@ class UnitQuantity(Quantity):
         self, name, definition=None, symbol=None, u_symbol=None,
         aliases=[], doc=None
     ):
-        unit_registry[name] = self
+        labels = [name]
         if symbol:
-            unit_registry[symbol] = self
-        for alias in aliases:
-            unit_registry[alias] = self
+            labels.append(symbol)
+        labels.extend(aliases)
+        unit_registry.register(labels, self)
 
     def __array_finalize__(self, obj):
         pass
-- 
2.43.0


From 1c6e9aea182cb2bf1fe64b8e3a53ae7777933167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 09/60] fix: simplify undefined units, make set_default_units
 all-or-nothing

dimensionless.simplified and the simplified form of a unit without a
definition recursed forever; a rejected set_default_units call left part of
its changes behind and raised AssertionError for string arguments.
---
 quantities/unitquantity.py | 62 ++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index e50ce12..b1cbbd7 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -113,6 +113,9 @@ class UnitQuantity(Quantity):
 
     @property
     def simplified(self):
+        if self._conv_ref is None:
+            # not defined in terms of other units
+            return self.view(Quantity) * 1
         return self._reference.simplified
 
     @property
@@ -321,14 +324,17 @@ class IrreducibleUnit(UnitQuantity):
     def set_default_unit(cls, unit):
         if unit is None:
             return
+        cls._default_unit = cls._check_default_unit(unit)
+    @classmethod
+    def _check_default_unit(cls, unit):
         if isinstance(unit, str):
             unit = unit_registry[unit]
         try:
             # check that conversions are possible:
             get_conversion_factor(cls._default_unit, unit)
-        except ValueError:
+        except (AssertionError, ValueError):
             raise TypeError('default unit must be of same type')
-        cls._default_unit = unit
+        return unit
 
 
 class UnitMass(IrreducibleUnit):
@@ -488,26 +494,36 @@ def set_default_units(
             assert system in ('si', 'cgs')
         except AssertionError:
             raise ValueError('system must be "SI" or "cgs", got "%s"' % system)
+        defaults = [
+            (UnitLuminousIntensity, 'cd'),
+            (UnitSubstance, 'mol'),
+            (UnitTemperature, 'degK'),
+            (UnitTime, 's'),
+        ]
         if system == 'si':
-            UnitCurrent.set_default_unit('A')
-            UnitLength.set_default_unit('m')
-            UnitMass.set_default_unit('kg')
+            defaults += [
+                (UnitCurrent, 'A'), (UnitLength, 'm'), (UnitMass, 'kg')
+            ]
         elif system == 'cgs':
-            UnitLength.set_default_unit('cm')
-            UnitMass.set_default_unit('g')
-        UnitLuminousIntensity.set_default_unit('cd')
-        UnitSubstance.set_default_unit('mol')
-        UnitTemperature.set_default_unit('degK')
-        UnitTime.set_default_unit('s')
-
-    UnitCurrency.set_default_unit(currency)
-    UnitCurrent.set_default_unit(current)
-    UnitInformation.set_default_unit(information)
-    UnitLength.set_default_unit(length)
-    UnitLuminousIntensity.set_default_unit(luminous_intensity)
-    UnitMass.set_default_unit(mass)
-    UnitSubstance.set_default_unit(substance)
-    UnitTemperature.set_default_unit(temperature)
-    UnitTime.set_default_unit(time)
-
-
+            defaults += [(UnitLength, 'cm'), (UnitMass, 'g')]
+    else:
+        defaults = []
+
+    defaults += [
+        (UnitCurrency, currency),
+        (UnitCurrent, current),
+        (UnitInformation, information),
+        (UnitLength, length),
+        (UnitLuminousIntensity, luminous_intensity),
+        (UnitMass, mass),
+        (UnitSubstance, substance),
+        (UnitTemperature, temperature),
+        (UnitTime, time),
+    ]
+    # check all of them before changing any
+    defaults = [
+        (cls, cls._check_default_unit(unit))
+        for cls, unit in defaults if unit is not None
+    ]
+    for cls, unit in defaults:
+        cls.set_default_unit(unit)
-- 
2.43.0


From 65bed5f1056435e2355b77107f832f8b6c5402eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 10/60] fix: make printed units independent of order and of
 concurrent setting changes

Units with equal format order were printed in the order of construction,
and the unicode setting was read several times while formatting.
---
 quantities/dimensionality.py |  7 ++++---
 quantities/markup.py         | 19 +++++++++----------
 quantities/quantity.py       |  6 +-----
 3 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c00190b..f829e77 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -189,10 +189,11 @@ class Dimensionality(dict):
             % ', '.join(['%s: %s'% (u.name, e) for u, e in self.items()])
 
     def __str__(self):
-        if markup.config.use_unicode:
-            return self.unicode
+        use_unicode = markup.config.use_unicode
+        if use_unicode:
+            return markup.format_units_unicode(self, use_unicode)
         else:
-            return self.string
+            return markup.format_units(self, use_unicode)
 
     def __eq__(self, other):
         return hash(self) == hash(other)
diff --git a/quantities/markup.py b/quantities/markup.py
index 4f739a2..6f4d1a5 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -48,21 +48,20 @@ def superscript(val):
             ret.append(s)
     return ''.join(ret)
 
-def format_units(udict):
+def format_units(udict, use_unicode=None):
     '''
     create a string representation of the units contained in a dimensionality
     '''
+    # read the setting only once, another thread may change it meanwhile
+    if use_unicode is None:
+        use_unicode = config.use_unicode
     num = []
     den = []
-    keys = [k for k, o in
-        sorted(
-            ((k, k.format_order) for k in udict),
-            key=operator.itemgetter(1)
-        )
-    ]
+    # the names settle ties, so that the order in udict never matters
+    keys = sorted(udict, key=operator.attrgetter('format_order', 'name'))
     for key in keys:
         d = udict[key]
-        if config.use_unicode:
+        if use_unicode:
             u = key.u_symbol
         else:
             u = key.symbol
@@ -83,8 +82,8 @@ def format_units(udict):
     if not res: res = 'dimensionless'
     return res
 
-def format_units_unicode(udict):
-    res = format_units(udict)
+def format_units_unicode(udict, use_unicode=None):
+    res = format_units(udict, use_unicode)
     res = superscript(res)
     res = res.replace('**', '^').replace('*','·')
 
diff --git a/quantities/quantity.py b/quantities/quantity.py
index 02914ce..ef245f0 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -430,11 +430,7 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.__str__)
     def __str__(self):
-        if markup.config.use_unicode:
-            dims = self.dimensionality.unicode
-        else:
-            dims = self.dimensionality.string
-        return '%s %s'%(str(self.magnitude), dims)
+        return '%s %s'%(str(self.magnitude), str(self.dimensionality))
 
     if tuple(map(int, np.__version__.split('.')[:2])) >= (1, 14):
         # in numpy 1.14 the formatting of scalar values was changed
-- 
2.43.0


From 39ad0376d57ed383d7b6e61983234797660daff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 11/60] fix: correct pond, statampere and the aliases of foot
 and oersted

The pond is a gram-force, the statampere (defined via the electrostatic
charge unit) is not convertible to ampere so it can not be a UnitCurrent, a
missing comma merged two aliases of foot, and oersted was aliased 'aliases'.
---
 quantities/units/electromagnetism.py  | 4 ++--
 quantities/units/electromagnetism.pyi | 4 ++--
 quantities/units/force.py             | 2 +-
 quantities/units/length.py            | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index c22ac87..faed216 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -52,7 +52,7 @@ esu = statcoulomb = statC = franklin = Fr = UnitQuantity(
     symbol='esu',
     aliases=['statcoulombs', 'statC', 'franklin', 'franklins', 'Fr']
 )
-esu_per_second = statampere = UnitCurrent(
+esu_per_second = statampere = UnitQuantity(
     'statampere',
     esu/s,
     symbol='(esu/s)',
@@ -264,7 +264,7 @@ Oe = oersted = UnitQuantity(
     'oersted',
     1000/(4*pi)*A/m,
     symbol='Oe',
-    aliases=['aliases']
+    aliases=['oersteds']
 )
 statfarad = statF = stF = UnitQuantity(
     'statfarad',
diff --git a/quantities/units/electromagnetism.pyi b/quantities/units/electromagnetism.pyi
index bdc6ddb..f3ba38b 100644
--- a/quantities/units/electromagnetism.pyi
+++ b/quantities/units/electromagnetism.pyi
@@ -24,8 +24,8 @@ statcoulomb: UnitQuantity
 statC: UnitQuantity
 franklin: UnitQuantity
 Fr: UnitQuantity
-esu_per_second: UnitCurrent
-statampere: UnitCurrent
+esu_per_second: UnitQuantity
+statampere: UnitQuantity
 ampere_turn: UnitQuantity
 Gi: UnitQuantity
 gilbert: UnitQuantity
diff --git a/quantities/units/force.py b/quantities/units/force.py
index c903969..7be0d23 100644
--- a/quantities/units/force.py
+++ b/quantities/units/force.py
@@ -28,7 +28,7 @@ dyne = UnitQuantity(
 )
 pond = UnitQuantity(
     'pond',
-    g_0*kg,
+    g_0*gram,
     symbol='p',
     aliases=['ponds']
 )
diff --git a/quantities/units/length.py b/quantities/units/length.py
index 5634f75..e8c2d24 100644
--- a/quantities/units/length.py
+++ b/quantities/units/length.py
@@ -76,7 +76,7 @@ ft = foot = international_foot = UnitLength(
     'foot',
     12*inch,
     symbol='ft',
-    aliases=['feet', 'international_foot' 'international_feet']
+    aliases=['feet', 'international_foot', 'international_feet']
 )
 mi = mile = international_mile = UnitLength(
     'mile',
-- 
2.43.0


From 291685830a868f340d88d408244d58cfa9e8ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 12/60] fix: take the units of all arguments into account in
 umath functions

arctan2 and ediff1d used the raw numbers of their second and boundary
arguments, unwrap treated degrees as radians, gradient returned nothing
without a spacing, cross of a quantity and an array dropped the units and
cos and tan ignored out.
---
 quantities/umath.py | 56 +++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 16bc412..3a43eb4 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -73,30 +73,38 @@ def ediff1d(ary, to_end=None, to_begin=None):
     if not isinstance(ary, Quantity):
         return np.ediff1d(ary, to_end, to_begin)
 
+    def magnitude(q):
+        if q is None:
+            return None
+        if not isinstance(q, Quantity):
+            q = Quantity(q)
+        return q.rescale(ary.dimensionality).magnitude
+
     return Quantity(
-        np.ediff1d(ary.magnitude, to_end, to_begin),
-        ary.dimensionality,
-        copy=False
+        np.ediff1d(ary.magnitude, magnitude(to_end), magnitude(to_begin)),
+        ary.dimensionality
     )
 
 @with_doc(np.gradient)
 def gradient(f, *varargs):
     # if no sample distances are specified, use dimensionless 1
-    # this mimics the behavior of np.gradient, but perhaps we should
-    # remove this default behavior
-    # removed for now::
-    #
-    #   if len(varargs) == 0:
-    #       varargs = (Quantity(1),)
-
-    varargsQuantities = [Quantity(i, copy=False) for i in varargs]
+    # this mimics the behavior of np.gradient
+    if len(varargs) == 0:
+        varargs = (1, )
+
+    if not isinstance(f, Quantity):
+        f = Quantity(f)
+    varargsQuantities = [
+        i if isinstance(i, Quantity) else Quantity(i) for i in varargs
+    ]
     varargsMag = tuple(i.magnitude for i in varargsQuantities)
     ret = np.gradient(f.magnitude, *varargsMag)
 
     if len(varargs) == 1:
         # if there was only one sample distance provided,
         # apply the units in all directions
-        return tuple( Quantity(i, f.units/varargs[0].units)  for i  in ret)
+        return tuple( Quantity(i, f.units/varargsQuantities[0].units)
+                      for i  in ret)
     else:
         #give each output array the units of the input array
         #divided by the units of the spacing quantity given
@@ -105,7 +113,7 @@ def gradient(f, *varargs):
 
 @with_doc(np.cross)
 def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
-    if not (isinstance(a, Quantity) and isinstance(b, Quantity)):
+    if not (isinstance(a, Quantity) or isinstance(b, Quantity)):
         return np.cross(a, b, axisa, axisb, axisc, axis)
 
     if not isinstance(a, Quantity):
@@ -279,7 +287,8 @@ def cos(x, out=None):
     if not isinstance(x, Quantity):
         return np.cos(x, out)
 
-    return Quantity(np.cos(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.cos(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arccos)
 def arccos(x, out=None):
@@ -308,7 +317,8 @@ def tan(x, out=None):
     if not isinstance(x, Quantity):
         return np.tan(x, out)
 
-    return Quantity(np.tan(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.tan(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arctan)
 def arctan(x, out=None):
@@ -334,7 +344,7 @@ def arctan2(x1, x2, out=None):
 
     Returns a quantity in units of radians.
     """
-    if not (isinstance(x1, Quantity) and isinstance(x2, Quantity)):
+    if not (isinstance(x1, Quantity) or isinstance(x2, Quantity)):
         return np.arctan2(x1, x2, out)
 
     if not isinstance(x1, Quantity):
@@ -347,6 +357,7 @@ def arctan2(x1, x2, out=None):
             'x1 and x2 must have identical units, got "%s" and "%s"'\
             % (str(x1._dimensionality), str(x2._dimensionality))
         )
+    x2 = x2.rescale(x1._dimensionality)
 
     return Quantity(
         np.arctan2(x1.magnitude, x2.magnitude, out),
@@ -359,7 +370,7 @@ def hypot(x1, x2, out = None):
     """
     Raises a ValueError if inputs do not have identical units.
     """
-    if not (isinstance(x1, Quantity) and isinstance(x2, Quantity)):
+    if not (isinstance(x1, Quantity) or isinstance(x2, Quantity)):
         return np.hypot(x1, x2, out)
 
     if not isinstance(x1, Quantity):
@@ -381,7 +392,7 @@ def hypot(x1, x2, out = None):
 
 @with_doc(np.unwrap)
 def unwrap(p, discont=np.pi, axis=-1):
-    if not (isinstance(p, Quantity) and isinstance(discont, Quantity)):
+    if not (isinstance(p, Quantity) or isinstance(discont, Quantity)):
         return np.unwrap(p, discont, axis)
 
     if not isinstance(p, Quantity):
@@ -389,12 +400,13 @@ def unwrap(p, discont=np.pi, axis=-1):
     if not isinstance(discont, Quantity):
         discont = Quantity(discont, copy=False)
 
-    discont = discont.rescale(p.units)
+    # the period is 2 pi radians, whatever the units of p are
+    discont = discont.rescale(radian)
 
     return Quantity(
-        np.unwrap(p.magnitude, discont.magnitude, axis),
-        p.units
-    )
+        np.unwrap(p.rescale(radian).magnitude, discont.magnitude, axis),
+        radian
+    ).rescale(p.units)
 
 @with_doc(np.sinh)
 def sinh(x, out=None):
-- 
2.43.0


From 5c3a8a778f25edad8046a7aa225fdd4c2a97fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 13/60] fix: typo which broke keyword arguments of quantitizer
 functions

---
 quantities/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index bd4d0e2..deb5081 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -110,7 +110,7 @@ def quantitizer(base_function,
             #test if the argument is a quantity
             if isinstance(kwargs[i], Quantity):
                 #convert the units to the base units
-                kwargs[i] = kwargs[i].simplifed()
+                kwargs[i] = kwargs[i].simplified
 
                 #view the array as an ndarray
                 kwargs[i] = kwargs[i].magnitude
-- 
2.43.0


From 54fa7e100e6d663bffccaffa796aec52076bb7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 14/60] fix: check the units of both arguments of logaddexp and
 logaddexp2

---
 quantities/dimensionality.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index f829e77..005f6fa 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -376,8 +376,12 @@ p_dict[np.log1p] = _d_dimensionless
 p_dict[np.exp] = _d_dimensionless
 p_dict[np.exp2] = _d_dimensionless
 p_dict[np.expm1] = _d_dimensionless
-p_dict[np.logaddexp] = _d_dimensionless
-p_dict[np.logaddexp2] = _d_dimensionless
+
+def _d_both_dimensionless(q1, q2, out=None):
+    _d_dimensionless(q2)
+    return _d_dimensionless(q1)
+p_dict[np.logaddexp] = _d_both_dimensionless
+p_dict[np.logaddexp2] = _d_both_dimensionless
 
 def _d_trig(q1, out=None):
     try:
-- 
2.43.0


From e14edb0403edcbdc027e48e7ead9dfb22733f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 15/60] fix: comparison ufuncs give dimensionless truth values

np.equal(q, q) etc. returned a boolean Quantity with the units of q. Also
report a mismatch with a plain number as ValueError like any other.
---
 quantities/dimensionality.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 005f6fa..8b29d88 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -270,7 +270,7 @@ def _d_check_uniform(q1, q2, out=None):
         except ValueError:
             raise ValueError(
                 'quantities must have identical units, got "%s" and "%s"' %
-                (q1.units, q2.units)
+                (getattr(q1, 'units', q1), getattr(q2, 'units', q2))
             )
 
 p_dict[np.add] = _d_check_uniform
@@ -279,15 +279,21 @@ p_dict[np.mod] = _d_check_uniform
 p_dict[np.fmod] = _d_check_uniform
 p_dict[np.remainder] = _d_check_uniform
 p_dict[np.hypot] = _d_check_uniform
-p_dict[np.equal] = _d_check_uniform
-p_dict[np.not_equal] = _d_check_uniform
-p_dict[np.less] = _d_check_uniform
-p_dict[np.less_equal] = _d_check_uniform
-p_dict[np.greater] = _d_check_uniform
-p_dict[np.greater_equal] = _d_check_uniform
 p_dict[np.maximum] = _d_check_uniform
 p_dict[np.minimum] = _d_check_uniform
 
+def _d_compare(q1, q2, out=None):
+    _d_check_uniform(q1, q2)
+    # truth values don't have units
+    return Dimensionality()
+
+p_dict[np.equal] = _d_compare
+p_dict[np.not_equal] = _d_compare
+p_dict[np.less] = _d_compare
+p_dict[np.less_equal] = _d_compare
+p_dict[np.greater] = _d_compare
+p_dict[np.greater_equal] = _d_compare
+
 def _d_arctan2(q1, q2, out=None):
     try:
         assert q1._dimensionality == q2._dimensionality
-- 
2.43.0


From d821d64c557d38ecb814a69692e942ee4a27deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 16/60] fix: protect the units of views made by real, imag,
 squeeze and fill

Assigning units to q.real, q.imag or q.squeeze(), or filling a view with
other units, changed the numbers but not the units of the base.
---
 quantities/quantity.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index ef245f0..ed69588 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -160,7 +160,7 @@ class Quantity(np.ndarray):
 
     @property
     def real(self):
-        return Quantity(self.magnitude.real, self.dimensionality)
+        return np.ndarray.real.__get__(self.view(Quantity))
 
     @real.setter
     def real(self, r):
@@ -168,7 +168,7 @@ class Quantity(np.ndarray):
 
     @property
     def imag(self):
-        return Quantity(self.magnitude.imag, self.dimensionality)
+        return np.ndarray.imag.__get__(self.view(Quantity))
 
     @imag.setter
     def imag(self, i):
@@ -545,6 +545,12 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
+        if getattr(value, 'dimensionality', self._dimensionality) \
+                != self._dimensionality:
+            try:
+                assert not isinstance(self.base, Quantity)
+            except AssertionError:
+                raise ValueError('can not modify units of a view of a Quantity')
         self.magnitude.fill(value)
         try:
             self._dimensionality = value.dimensionality
@@ -700,10 +706,9 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
-        return Quantity(
-            self.magnitude.squeeze(axis),
-            self.dimensionality
-        )
+        # a view, like that of the other shape methods
+        shape = self.magnitude.squeeze(axis).shape
+        return self.view(Quantity).reshape(shape)
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-- 
2.43.0


From e3a001dffea386fea675fda153063c3c5d208f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 17/60] fix: honour axis and out in nan-reductions, plain
 bounds in clip

nanmax, nanmin and their arg-variants ignored axis and out, nansum, nanmean
and nanstd failed with an output quantity, and clipping a dimensionless
quantity with plain numbers raised AttributeError.
---
 quantities/quantity.py | 71 ++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index ed69588..61efd92 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -537,11 +537,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
-        import numpy as np
-        return Quantity(
-            np.nansum(self.magnitude, axis, dtype, out),
-            self.dimensionality
-        )
+        ret = np.nansum(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
@@ -609,10 +612,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return Quantity(
-            np.nanmax(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmax(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
@@ -627,10 +634,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return Quantity(
-            np.nanmin(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmin(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.argmin)
     def argmin(self, axis=None, out=None):
@@ -638,11 +649,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
@@ -668,6 +679,8 @@ class Quantity(np.ndarray):
             raise ValueError(
                 "both min and max must be Quantities with compatible units"
             )
+        if not isinstance(min, Quantity): min = Quantity(min)
+        if not isinstance(max, Quantity): max = Quantity(max)
 
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
@@ -723,10 +736,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
-        import numpy as np
-        return Quantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
-            self.dimensionality)
+        ret = np.nanmean(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
@@ -752,10 +769,16 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
-        return Quantity(
-            np.nanstd(self.magnitude, axis, dtype, out, ddof),
-            self._dimensionality
+        ret = np.nanstd(
+            self.magnitude, axis, dtype, None if out is None else out.magnitude, ddof
         )
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.prod)
     def prod(self, axis=None, dtype=None, out=None):
@@ -792,7 +815,9 @@ class Quantity(np.ndarray):
                 "Quantity must be dimensionless, try using simplified"
             )
 
-        ret = self.magnitude.cumprod(axis, dtype, out)
+        ret = self.magnitude.cumprod(
+            axis, dtype, out.magnitude if isinstance(out, Quantity) else out
+        )
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-- 
2.43.0


From 3d48c3032181a7489617c994be92fac64093712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 18/60] fix: parse symbols which look like expressions as the
 unit they belong to

---
 quantities/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/registry.py b/quantities/registry.py
index 5a150ee..9042a15 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -29,6 +29,9 @@ class UnitRegistry:
             self.__lock = threading.RLock()
 
         def __getitem__(self, string):
+            # symbols like "(esu/s)" are labels although they look like expressions
+            if string in self.__context:
+                return self.__context[string]
             # This approach to avoiding arbitrary evaluation of code is based on https://stackoverflow.com/a/11952618 
             # by https://stackoverflow.com/users/567292/ecatmur
             tree = ast.parse(string, mode="eval")
-- 
2.43.0


From cc3b26bb8cc425a2fa33b2b89e13d451003d036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 19/60] fix: convert to dimensionless in the constructor when
 asked by dimensionality

---
 quantities/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 61efd92..27445c6 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -122,7 +122,8 @@ class Quantity(np.ndarray):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         if isinstance(data, Quantity):
-            if units:
+            # an empty dimensionality is false, but means dimensionless
+            if isinstance(units, (Quantity, Dimensionality)) or units:
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
                 return Quantity.__new__(cls, 1.0, data.dimensionality, dtype)
-- 
2.43.0


From c37b9905c68cb16e044c14432632b5a0649ecc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 20/60] fix: convert the operand of a reflected remainder like
 the other operators

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 27445c6..8b7b633 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -379,6 +379,11 @@ class Quantity(np.ndarray):
     def __mod__(self, other):
         return super().__mod__(other)
 
+    @with_doc(np.ndarray.__rmod__)
+    @scale_other_units
+    def __rmod__(self, other):
+        return np.remainder(other, self)
+
     @with_doc(np.ndarray.__imod__)
     @scale_other_units
     def __imod__(self, other):
-- 
2.43.0


From 268b490c2df035d8898fd792b5876d1d3d060f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 21/60] fix: check the units of exponents of arrays, in-place
 powers of zero, one and arrays

---
 quantities/quantity.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 8b7b633..6832ebc 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -92,7 +92,7 @@ def check_uniform(f):
 def protected_power(f):
     @wraps(f)
     def g(self, other, *args):
-        if other != 1:
+        if np.any(np.asarray(other) != 1):
             try:
                 assert not isinstance(self.base, Quantity)
             except AssertionError:
@@ -419,10 +419,19 @@ class Quantity(np.ndarray):
     def __pow__(self, other):
         return np.power(self, other)
 
+    @with_doc(np.ndarray.__rpow__)
+    def __rpow__(self, other):
+        # not super().__rpow__, which doesn't check the units of some exponents
+        return np.power(other, self)
+
     @with_doc(np.ndarray.__ipow__)
     @check_uniform
     @protected_power
     def __ipow__(self, other):
+        power = np.asarray(other)
+        if np.all(power == 0) or np.all(power == 1):
+            # ndarray.__ipow__ would use ufuncs which are not supported
+            return np.power(self, power.astype(int), out=self)
         return super().__ipow__(other)
 
     def __round__(self, decimals=0):
-- 
2.43.0


From 9250dadd43f348458c39f2aac057a4a856c61b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 22/60] fix: share no state in Dimensionality.simplified, allow
 dividing an expression by itself in place

---
 quantities/dimensionality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 8b29d88..377158a 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -38,7 +38,7 @@ class Dimensionality(dict):
                 rq = rq * u.simplified**d
             return rq.dimensionality
         else:
-            return self
+            return self.copy()
 
     @property
     def string(self):
@@ -151,7 +151,7 @@ class Dimensionality(dict):
 
     def __itruediv__(self, other):
         assert_isinstance(other, Dimensionality)
-        for unit, power in other.items():
+        for unit, power in list(other.items()):
             try:
                 self[unit] -= power
                 if self[unit] == 0:
-- 
2.43.0


From f28d06c89abc61d68fb0137f3c7db5101eb7aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 23/60] fix: truth values stored in an output quantity have no
 units

---
 quantities/quantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 6832ebc..01b1379 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -307,6 +307,9 @@ class Quantity(np.ndarray):
 
         uf, objs, huh = context
         if uf.__name__.startswith('is'):
+            if isinstance(obj, Quantity):
+                # passed in as the `out` argument
+                obj._dimensionality = Dimensionality()
             return obj
 
         if not any(isinstance(o, Quantity) for o in objs[:uf.nin]):
-- 
2.43.0


From 8edd94f8c8391e4f935eae6dcf95ca9b40b49bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 24/60] fix: convert the values diff prepends and appends

---
 quantities/umath.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 3a43eb4..24b37ec 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -66,7 +66,26 @@ def cumprod(a, axis=None, dtype=None, out=None):
 def cumsum(a,axis=None, dtype=None, out=None):
     return a.cumsum(axis, dtype, out)
 
-diff = np.diff
+@with_doc(np.diff)
+def diff(a, n=1, axis=-1, prepend=None, append=None):
+    ends = {
+        name: end for name, end in (('prepend', prepend), ('append', append))
+        if end is not None
+    }
+    if not any(isinstance(i, Quantity) for i in (a, *ends.values())):
+        return np.diff(a, n, axis, **ends)
+    if not ends:
+        return np.diff(a, n, axis)
+
+    if not isinstance(a, Quantity):
+        a = Quantity(a)
+    # numpy would concatenate the magnitudes, whatever their units are
+    for name, end in ends.items():
+        if not isinstance(end, Quantity):
+            end = Quantity(end)
+        ends[name] = end.rescale(a.dimensionality).magnitude
+
+    return Quantity(np.diff(a.magnitude, n, axis, **ends), a.dimensionality)
 
 @with_doc(np.ediff1d)
 def ediff1d(ary, to_end=None, to_begin=None):
-- 
2.43.0


From 6f1fc2b3fd17d39f3311e578d1b842479caf8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 25/60] fix: convert plain values to which ediff1d attaches
 quantities

---
 quantities/umath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 24b37ec..f3ac0b2 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -89,8 +89,10 @@ def diff(a, n=1, axis=-1, prepend=None, append=None):
 
 @with_doc(np.ediff1d)
 def ediff1d(ary, to_end=None, to_begin=None):
-    if not isinstance(ary, Quantity):
+    if not any(isinstance(i, Quantity) for i in (ary, to_end, to_begin)):
         return np.ediff1d(ary, to_end, to_begin)
+    if not isinstance(ary, Quantity):
+        ary = Quantity(ary)
 
     def magnitude(q):
         if q is None:
-- 
2.43.0


From 48b41b78129150334c0dbd2cb53204ad9ebc9fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 26/60] fix: products along several axes

---
 quantities/quantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 01b1379..c05d594 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -802,6 +802,10 @@ class Quantity(np.ndarray):
     def prod(self, axis=None, dtype=None, out=None):
         if axis == None:
             power = self.size
+        elif isinstance(axis, tuple):
+            power = 1
+            for i in axis:
+                power *= self.shape[i]
         else:
             power = self.shape[axis]
 
-- 
2.43.0


From af1e0114e9883e07ecb9b92d2991fafbf1df213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 27/60] fix: argpartition returns indices, which have no units

---
 quantities/quantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index c05d594..ae84399 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -599,6 +599,10 @@ class Quantity(np.ndarray):
     def argsort(self, axis=-1, kind='quick', order=None):
         return self.magnitude.argsort(axis, kind, order)
 
+    @with_doc(np.ndarray.argpartition)
+    def argpartition(self, *args, **kwargs):
+        return self.magnitude.argpartition(*args, **kwargs)
+
     @with_doc(np.ndarray.searchsorted)
     def searchsorted(self,values, side='left'):
         if not isinstance (values, Quantity):
-- 
2.43.0


From a3d0ce98c92dc6f63442f3a38a8ba5c6c66a3836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 28/60] fix: views and array copies of units are ordinary
 quantities

---
 quantities/unitquantity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index b1cbbd7..330bedd 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -80,7 +80,10 @@ class UnitQuantity(Quantity):
         unit_registry.register(labels, self)
 
     def __array_finalize__(self, obj):
-        pass
+        if isinstance(obj, UnitQuantity):
+            # a view or a copy of the array of a unit is not a unit
+            self.__class__ = Quantity
+            self.__array_finalize__(obj)
 
     def __hash__(self):
         return hash((type(self), self._name))
-- 
2.43.0


From 38a651c24a0d2947cca94fb1da30baf4b8c3c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 29/60] fix: the definition of a unit shares no state with the
 quantity it was made from or handed out as

---
 quantities/unitquantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 330bedd..26de18b 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -1,6 +1,7 @@
 """
 """
 
+import copy
 import weakref
 
 import numpy
@@ -56,7 +57,8 @@ class UnitQuantity(Quantity):
         if definition is not None:
             if not isinstance(definition, Quantity):
                 definition *= dimensionless
-            ret._definition = definition
+            # quantities are mutable, so keep a copy (a unit copies to itself)
+            ret._definition = copy.copy(definition)
             ret._conv_ref = definition._reference
         else:
             ret._definition = None
@@ -112,7 +114,7 @@ class UnitQuantity(Quantity):
         if self._definition is None:
             return self
         else:
-            return self._definition
+            return copy.copy(self._definition)
 
     @property
     def simplified(self):
-- 
2.43.0


From a72dd3808753123ccf94ebc481f3ed94954efd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 30/60] fix: labels with dots or carets denote their unit, two
 middle dots are no power

---
 quantities/registry.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 9042a15..56dd1a3 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -28,6 +28,9 @@ class UnitRegistry:
             self.__context = {}
             self.__lock = threading.RLock()
 
+        def __contains__(self, string):
+            return string in self.__context
+
         def __getitem__(self, string):
             # symbols like "(esu/s)" are labels although they look like expressions
             if string in self.__context:
@@ -96,8 +99,13 @@ class UnitRegistry:
     def __getitem__(self, label):
         """Parses a string description of a unit e.g., 'g/cc'"""
 
+        # labels may contain characters like the dots in "m.w.e."
+        if label in self.__registry:
+            return self.__registry[label]
+
+        # the spaces keep two dots from becoming the operator of a power
         label = self.__regex.sub(
-            r"\g<1>*", label.replace('^', '**').replace('·', '*'))
+            r"\g<1>*", label.replace('^', '**').replace('·', ' * '))
 
         # make sure we can parse the label ....
         if label == '': label = 'dimensionless'
-- 
2.43.0


From 46f0f016ccc9fafc31ded08230ae71a78632f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 31/60] fix: unicode symbol of the drachm, which was printed as
 blanks

---
 quantities/units/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/mass.py b/quantities/units/mass.py
index 02c67d8..fffb71a 100644
--- a/quantities/units/mass.py
+++ b/quantities/units/mass.py
@@ -123,7 +123,7 @@ dr = dram = UnitMass(
 drachm = apdram = UnitMass(
     'drachm',
     60*gr,
-    u_symbol='  ',
+    u_symbol='ʒ',
     aliases=['drachms', 'apdram', 'apdrams'],
     doc='also known as the apothecary dram'
 )
-- 
2.43.0


From 01d478b8eddc6ccee2e56e41cecd1c3c446c6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 32/60] fix: exponents that are fractions or of single
 precision print as the number they are

---
 quantities/markup.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantities/markup.py b/quantities/markup.py
index 6f4d1a5..97d8c06 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -6,6 +6,8 @@ import operator
 import re
 import threading
 
+import numpy
+
 
 class _Config:
 
@@ -30,6 +32,10 @@ config = _Config()
 superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
 
 def format_exponent(d):
+    if not isinstance(d, (int, numpy.integer)):
+        # str() of a fraction is a quotient and str() of a number of single
+        # precision the text of another number
+        d = float(d)
     # str(2.0) is '2.0', but an exponent of 10 has to keep its zero
     res = str(d)
     if '.' in res and 'e' not in res:
-- 
2.43.0


From 364bd5d9d561bb19c64c4e58376d4f6e6737b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 33/60] fix: a copy of a unit prints in the same place as the
 unit

---
 quantities/unitquantity.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 26de18b..967a032 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -281,16 +281,17 @@ class UnitQuantity(Quantity):
         )
 
     def copy(self):
-        return (
-            type(self)(
-                self._name,
-                self._definition,
-                self._symbol,
-                self._u_symbol,
-                self._aliases,
-                self.__doc__
-                )
-            )
+        ret = type(self)(
+            self._name,
+            self._definition,
+            self._symbol,
+            self._u_symbol,
+            self._aliases,
+            self.__doc__
+        )
+        # the copy has the same place in a product of units
+        ret._format_order = self._format_order
+        return ret
 
     # units are immutable and unique, like ints or functions
 
-- 
2.43.0


From 5450a986a057748affd0c60f3de128e0381e3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 34/60] fix: restoring compound units of user-defined units in
 another process

---
 quantities/unitquantity.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 967a032..60e81d7 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -415,13 +415,20 @@ class CompoundUnit(UnitQuantity):
         Return a tuple for pickling a UnitQuantity.
         """
         return (
-            type(self),
-            (self._name, ),
+            _reconstruct_compound_unit,
+            (type(self), self._name, self._definition),
             self.__getstate__()
             )
 
     def copy(self):
-        return type(self)(self._name)
+        ret = type(self)(self._name)
+        ret._format_order = self._format_order
+        return ret
+
+
+def _reconstruct_compound_unit(cls, name, definition):
+    # restoring the definition has registered the units which occur in name
+    return cls(name)
 
 unit_registry['CompoundUnit'] = CompoundUnit
 
-- 
2.43.0


From 09ab66be61a852ff001f53ac360225dc83711eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 35/60] fix: default units given as a quantity do not change
 with it

---
 quantities/unitquantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 60e81d7..e637b28 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -340,7 +340,8 @@ class IrreducibleUnit(UnitQuantity):
             get_conversion_factor(cls._default_unit, unit)
         except (AssertionError, ValueError):
             raise TypeError('default unit must be of same type')
-        return unit
+        # quantities are mutable, so keep a copy (a unit copies to itself)
+        return copy.copy(unit)
 
 
 class UnitMass(IrreducibleUnit):
-- 
2.43.0


From 3a22fba6db990d756f6a498840dfa569955b79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 36/60] fix: propagate uncertainties when a NumPy scalar is the
 left operand

---
 quantities/uncertainquantity.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 647543a..ee738b8 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -22,6 +22,15 @@ def _get_uncertainty(q):
         return Quantity(np.zeros(q.shape), q.dimensionality)
 
 
+
+_reflected = {
+    np.add: '__radd__',
+    np.subtract: '__rsub__',
+    np.multiply: '__rmul__',
+    np.true_divide: '__rtruediv__',
+}
+
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -105,6 +114,17 @@ class UncertainQuantity(Quantity):
             )
         )
 
+    def __array_wrap__(self, obj, context=None, return_scalar=False):
+        if context is not None:
+            uf, objs, _ = context
+            if (
+                uf in _reflected and len(objs) == uf.nin
+                and isinstance(objs[0], np.generic)
+            ):
+                # NumPy scalars don't defer to the reflected operators
+                return getattr(self, _reflected[uf])(objs[0])
+        return super().__array_wrap__(obj, context, return_scalar)
+
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
-- 
2.43.0


From a7d054d3c5a0bc7ea946a7de64b77dd67abbcccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 37/60] fix: uncertain sums and conversions can be changed in
 place like other results

---
 quantities/uncertainquantity.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index ee738b8..f7a88bf 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -65,9 +65,11 @@ class UncertainQuantity(Quantity):
 
     @property
     def simplified(self):
-        ret = super().simplified.view(UncertainQuantity)
-        ret.uncertainty = self.uncertainty.simplified
-        return ret
+        ret = super().simplified
+        return UncertainQuantity(
+            ret.magnitude, ret._dimensionality, self.uncertainty.simplified,
+            dtype=ret.dtype
+        )
 
     @property
     def uncertainty(self):
@@ -90,11 +92,13 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.rescale, use_header=False)
     def rescale(self, units=None, dtype=None):
         cls = UncertainQuantity
-        ret = super(cls, self).rescale(units, dtype=dtype).view(cls)
-        ret.uncertainty = self.uncertainty.rescale(
-            ret._dimensionality, dtype=dtype
+        ret = super(cls, self).rescale(units, dtype=dtype)
+        # not a view, the units of which could not be changed any more
+        return cls(
+            ret.magnitude, ret._dimensionality,
+            self.uncertainty.rescale(ret._dimensionality, dtype=dtype),
+            dtype=ret.dtype
         )
-        return ret
 
     @with_doc(Quantity.astype, use_header=False)
     def astype(self, dtype=None, **kwargs):
@@ -130,7 +134,7 @@ class UncertainQuantity(Quantity):
     def __add__(self, other):
         res = super().__add__(other)
         u = np.hypot(self.uncertainty, _get_uncertainty(other))
-        return UncertainQuantity(res, uncertainty=u)
+        return UncertainQuantity(res.magnitude, res._dimensionality, u)
 
     @with_doc(Quantity.__radd__, use_header=False)
     @scale_other_units
@@ -142,7 +146,7 @@ class UncertainQuantity(Quantity):
     def __sub__(self, other):
         res = super().__sub__(other)
         u = np.hypot(self.uncertainty, _get_uncertainty(other))
-        return UncertainQuantity(res, uncertainty=u)
+        return UncertainQuantity(res.magnitude, res._dimensionality, u)
 
     @with_doc(Quantity.__rsub__, use_header=False)
     @scale_other_units
-- 
2.43.0


From 0c195f3f932622bd7cab754962025b4ef9dc4feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 38/60] fix: compare units, not their text, in
 rescale_preferred

---
 quantities/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index ae84399..480fbca 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -255,9 +255,10 @@ class Quantity(np.ndarray):
         new = old.rescale_preferred() # `new` will be 3141.5 mV.
         ```
         """
-        units_str = str(self.simplified.dimensionality)
+        units = self.simplified.dimensionality
         for preferred in PREFERRED:
-            if units_str == str(preferred.simplified.dimensionality):
+            # not the text, which several units may have in common
+            if units == preferred.simplified.dimensionality:
                 return self.rescale(preferred)
         raise Exception("Preferred units for '%s' (or equivalent) not specified in "
                         "quantites.quantity.PREFERRED." % self.dimensionality)
-- 
2.43.0


From d839d5fddcccd9887ec447856a30326630cda1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 39/60] fix: refuse false values which are not units for
 quantities, too

---
 quantities/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 480fbca..38f9b20 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -122,8 +122,9 @@ class Quantity(np.ndarray):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         if isinstance(data, Quantity):
-            # an empty dimensionality is false, but means dimensionless
-            if isinstance(units, (Quantity, Dimensionality)) or units:
+            # an empty string means that no units were given, other false
+            # values are a dimensionality or no units at all
+            if not (units is None or isinstance(units, str) and not units):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
                 return Quantity.__new__(cls, 1.0, data.dimensionality, dtype)
-- 
2.43.0


From aa5a496cafa4d63f6960e96529316cfa362b2c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 40/60] fix: take of a single element keeps the units

---
 quantities/quantity.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 38f9b20..55e4671 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -741,6 +741,14 @@ class Quantity(np.ndarray):
         out._dimensionality = dim
         return out
 
+    @with_doc(np.ndarray.take)
+    def take(self, indices, axis=None, out=None, mode='raise'):
+        ret = super().take(indices, axis, out, mode)
+        if out is None and not isinstance(ret, Quantity):
+            # NumPy returns a single element as a plain number
+            ret = Quantity(ret, self._dimensionality)
+        return ret
+
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
         # a view, like that of the other shape methods
-- 
2.43.0


From 962e0dcc4bb86d84b191c3feb41996d456053a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 41/60] fix: units defined by an uncertain quantity

---
 quantities/unitquantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index e637b28..7169b35 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -59,7 +59,8 @@ class UnitQuantity(Quantity):
                 definition *= dimensionless
             # quantities are mutable, so keep a copy (a unit copies to itself)
             ret._definition = copy.copy(definition)
-            ret._conv_ref = definition._reference
+            # an uncertainty plays no part in conversions
+            ret._conv_ref = definition._reference.view(Quantity)
         else:
             ret._definition = None
             ret._conv_ref = None
-- 
2.43.0


From 7bd65a4c03be00af600fea8c965856c9d6ea65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 42/60] fix: comparing for equality with incompatible units
 gives an array of the common shape

---
 quantities/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 55e4671..2f2ff4c 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -496,7 +496,7 @@ class Quantity(np.ndarray):
             try:
                 other = other.rescale(self._dimensionality).magnitude
             except ValueError:
-                return np.zeros(self.shape, '?')
+                return np.zeros(np.broadcast(self, other).shape, '?')
         return self.magnitude == other
 
     @with_doc(np.ndarray.__ne__)
@@ -505,7 +505,7 @@ class Quantity(np.ndarray):
             try:
                 other = other.rescale(self._dimensionality).magnitude
             except ValueError:
-                return np.ones(self.shape, '?')
+                return np.ones(np.broadcast(self, other).shape, '?')
         return self.magnitude != other
 
     @with_doc(np.ndarray.__ge__)
-- 
2.43.0


From 6fc50b2d2aff68de6e1d91089a6914a73f2a3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:45 +0000
Subject: [PATCH 43/60] fix: take and compress give the units to an output
 argument

---
 quantities/quantity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 2f2ff4c..659daee 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -747,6 +747,15 @@ class Quantity(np.ndarray):
         if out is None and not isinstance(ret, Quantity):
             # NumPy returns a single element as a plain number
             ret = Quantity(ret, self._dimensionality)
+        if isinstance(out, Quantity):
+            out._dimensionality = self.dimensionality
+        return ret
+
+    @with_doc(np.ndarray.compress)
+    def compress(self, condition, axis=None, out=None):
+        ret = super().compress(condition, axis, out)
+        if isinstance(out, Quantity):
+            out._dimensionality = self.dimensionality
         return ret
 
     @with_doc(np.ndarray.squeeze)
-- 
2.43.0


From 1b60e9d3e4dce652dec750307db7cf4154eb3bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:45 +0000
Subject: [PATCH 44/60] fix: exponents which are NumPy scalars must not wrap
 around

The type of the exponent was kept, so that 1/q**np.uint8(2) raised, or
the exponents of later products overflowed or lost precision.
---
 quantities/dimensionality.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 377158a..dd6691f 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -165,6 +165,9 @@ class Dimensionality(dict):
             assert np.isscalar(other)
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
+        if isinstance(other, np.generic):
+            # exponents must not wrap around or lose precision
+            other = other.item()
         if other == 0:
             return Dimensionality()
         new = Dimensionality(self)
@@ -177,6 +180,8 @@ class Dimensionality(dict):
             assert np.isscalar(other)
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
+        if isinstance(other, np.generic):
+            other = other.item()
         if other == 0:
             self.clear()
             return self
-- 
2.43.0


From 72d45739d389184a08ec3c0386ad5abae39eabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:03 +0000
Subject: [PATCH 45/60] fix: conversions in single precision must not overflow
 because of the factor

The factor was converted to the type of the result although it may be
out of its range when the result is not, e.g. for a half precision
0.001 km in mm.
---
 quantities/quantity.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 659daee..fc4a88b 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -237,9 +237,12 @@ class Quantity(np.ndarray):
                 'Unable to convert between units of "%s" and "%s"'
                 %(from_u._dimensionality, to_u._dimensionality)
             )
-        if np.dtype(dtype).kind in 'fc':
-            cf = np.array(cf, dtype=dtype)
         new_magnitude = cf*self.magnitude
+        if np.dtype(dtype).kind in 'fc':
+            # the result has this type, the factor may be out of its range
+            new_magnitude = new_magnitude.astype(
+                np.result_type(dtype, self.dtype)
+            )
         dtype = np.result_type(dtype, new_magnitude)
         return Quantity(new_magnitude, to_u, dtype=dtype)
 
-- 
2.43.0


From a52fa8054dba0491a50fc64550269dce9668c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 46/60] fix: compare quantities in the precision of both
 operands

The right operand was converted in its own type, so that 1e6 mm and a
half precision 1 km differed since their common value is out of range.
---
 quantities/quantity.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index fc4a88b..de6840f 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -105,7 +105,10 @@ def wrap_comparison(f):
     def g(self, other):
         if isinstance(other, Quantity):
             if other._dimensionality != self._dimensionality:
-                other = other.rescale(self._dimensionality)
+                other = other.rescale(
+                    self._dimensionality,
+                    dtype=np.result_type(self.dtype, other.dtype)
+                )
             other = other.magnitude
         return f(self, other)
     return g
@@ -497,7 +500,10 @@ class Quantity(np.ndarray):
     def __eq__(self, other):
         if isinstance(other, Quantity):
             try:
-                other = other.rescale(self._dimensionality).magnitude
+                other = other.rescale(
+                    self._dimensionality,
+                    dtype=np.result_type(self.dtype, other.dtype)
+                ).magnitude
             except ValueError:
                 return np.zeros(np.broadcast(self, other).shape, '?')
         return self.magnitude == other
@@ -506,7 +512,10 @@ class Quantity(np.ndarray):
     def __ne__(self, other):
         if isinstance(other, Quantity):
             try:
-                other = other.rescale(self._dimensionality).magnitude
+                other = other.rescale(
+                    self._dimensionality,
+                    dtype=np.result_type(self.dtype, other.dtype)
+                ).magnitude
             except ValueError:
                 return np.ones(np.broadcast(self, other).shape, '?')
         return self.magnitude != other
-- 
2.43.0


From c3a4659ef757e85ab49e60ed3e8d659f5d4acc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 47/60] fix: convert the limits of clip in the precision of
 both operands

---
 quantities/quantity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index de6840f..a09b343 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -718,9 +718,13 @@ class Quantity(np.ndarray):
         if not isinstance(min, Quantity): min = Quantity(min)
         if not isinstance(max, Quantity): max = Quantity(max)
 
+        min, max = (
+            i.rescale(
+                self._dimensionality, dtype=np.result_type(self.dtype, i.dtype)
+            ) for i in (min, max)
+        )
         clipped = self.magnitude.clip(
-            min.rescale(self._dimensionality).magnitude,
-            max.rescale(self._dimensionality).magnitude,
+            min.magnitude, max.magnitude,
             None if out is None else out.magnitude
         )
         dim = self.dimensionality
-- 
2.43.0


From d1a0d0c73baff5a37ba4da7b83f55cd15a5592e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:23 +0000
Subject: [PATCH 48/60] fix: convert the second argument of arctan2 and the
 ends of differences in the precision of both

---
 quantities/umath.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index f3ac0b2..7a7daf3 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -83,7 +83,9 @@ def diff(a, n=1, axis=-1, prepend=None, append=None):
     for name, end in ends.items():
         if not isinstance(end, Quantity):
             end = Quantity(end)
-        ends[name] = end.rescale(a.dimensionality).magnitude
+        ends[name] = end.rescale(
+            a.dimensionality, dtype=np.result_type(a.dtype, end.dtype)
+        ).magnitude
 
     return Quantity(np.diff(a.magnitude, n, axis, **ends), a.dimensionality)
 
@@ -99,7 +101,9 @@ def ediff1d(ary, to_end=None, to_begin=None):
             return None
         if not isinstance(q, Quantity):
             q = Quantity(q)
-        return q.rescale(ary.dimensionality).magnitude
+        return q.rescale(
+            ary.dimensionality, dtype=np.result_type(ary.dtype, q.dtype)
+        ).magnitude
 
     return Quantity(
         np.ediff1d(ary.magnitude, magnitude(to_end), magnitude(to_begin)),
@@ -378,7 +382,9 @@ def arctan2(x1, x2, out=None):
             'x1 and x2 must have identical units, got "%s" and "%s"'\
             % (str(x1._dimensionality), str(x2._dimensionality))
         )
-    x2 = x2.rescale(x1._dimensionality)
+    x2 = x2.rescale(
+        x1._dimensionality, dtype=np.result_type(x1.dtype, x2.dtype)
+    )
 
     return Quantity(
         np.arctan2(x1.magnitude, x2.magnitude, out),
-- 
2.43.0


From 5076503d4bf630d9caea7785427389625396bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:51 +0000
Subject: [PATCH 49/60] fix: convert an uncertainty in the precision of both it
 and the values

---
 quantities/uncertainquantity.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index f7a88bf..4afbd87 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -46,7 +46,9 @@ class UncertainQuantity(Quantity):
         ret._uncertainty._dimensionality = ret._dimensionality
 
         if uncertainty is not None:
-            ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
+            if not isinstance(uncertainty, Quantity):
+                uncertainty = Quantity(uncertainty, ret._dimensionality)
+            ret.uncertainty = uncertainty
         elif isinstance(data, UncertainQuantity):
             ret.uncertainty = data.uncertainty.rescale(ret.units)
 
@@ -83,7 +85,10 @@ class UncertainQuantity(Quantity):
         except AssertionError:
             raise ValueError('data and uncertainty must have identical shape')
         # always a copy, it may be changed in place later on
-        self._uncertainty = uncertainty.rescale(self._dimensionality)
+        self._uncertainty = uncertainty.view(Quantity).rescale(
+            self._dimensionality,
+            dtype=np.result_type(self.dtype, uncertainty.dtype)
+        )
 
     @property
     def relative_uncertainty(self):
-- 
2.43.0


From 02033b4b74c65e7a02c4af40a93bba25bfa0b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 50/60] fix: leave complex exponents as they are

The conversion of exponents which are NumPy scalars also made complex
ones Python objects, whose products cannot be ordered for printing.
---
 quantities/dimensionality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index dd6691f..67fb657 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -165,7 +165,7 @@ class Dimensionality(dict):
             assert np.isscalar(other)
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
-        if isinstance(other, np.generic):
+        if isinstance(other, np.generic) and other.dtype.kind != 'c':
             # exponents must not wrap around or lose precision
             other = other.item()
         if other == 0:
@@ -180,7 +180,7 @@ class Dimensionality(dict):
             assert np.isscalar(other)
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
-        if isinstance(other, np.generic):
+        if isinstance(other, np.generic) and other.dtype.kind != 'c':
             other = other.item()
         if other == 0:
             self.clear()
-- 
2.43.0


From a3524be1da153711d29d69109794db9b4ca0c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:36 +0000
Subject: [PATCH 51/60] fix: let quantities made by rescaling or casting a unit
 change their units

---
 quantities/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index a09b343..7ac1ec4 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -296,7 +296,8 @@ class Quantity(np.ndarray):
         if not isinstance(ret, type(self)):
             if self.__array_priority__ >= Quantity.__array_priority__:
                 ret = type(self)(ret, self._dimensionality, dtype=ret.dtype)
-            else:
+            elif not isinstance(ret, Quantity):
+                # not a view, the units of which could not be changed any more
                 ret = Quantity(ret, self._dimensionality, dtype=ret.dtype)
 
         return ret
-- 
2.43.0


From bd57b8574f125eb329d6199512763985a295fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:14 +0000
Subject: [PATCH 52/60] fix: quantitizer accepts a handler that returns a
 single quantity and a function without a docstring

---
 quantities/decorators.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index deb5081..f040f7e 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -119,6 +119,14 @@ def quantitizer(base_function,
         #get the result for the function
         result = base_function( *args, **kwargs)
 
+        # the handler returns a Quantity, not a tuple, for a single result
+        single = not isinstance(handler_quantities, (tuple, list))
+        if single:
+            handler_quantities = (handler_quantities, )
+            single = not isinstance(result, (tuple, list))
+            if single:
+                result = (result, )
+
         # since we have to modify the result, convert it to a list
         result = list(result)
 
@@ -147,7 +155,7 @@ def quantitizer(base_function,
 
         #need to convert the result back to a tuple
         result = tuple(result)
-        return result
+        return result[0] if single else result
 
     # give the wrapped function a similar name to the base function
     wrapped_function.__name__ = base_function.__name__ + "_QWrap"
@@ -155,6 +163,6 @@ def quantitizer(base_function,
     # doc string but add an annotation to the beginning
     wrapped_function.__doc__ = (
             "this function has been wrapped to work with Quantities\n"
-            + base_function.__doc__)
+            + (base_function.__doc__ or ""))
 
     return wrapped_function
-- 
2.43.0


From 28fcc04719d8e8ad888534be59bf2176692f2e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:14 +0000
Subject: [PATCH 53/60] fix: a unit keeps its own copy of the list of aliases

---
 quantities/unitquantity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 7169b35..2e66177 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -76,10 +76,12 @@ class UnitQuantity(Quantity):
         self, name, definition=None, symbol=None, u_symbol=None,
         aliases=[], doc=None
     ):
+        # a copy, the list may be changed by the caller later on
+        self._aliases = list(aliases)
         labels = [name]
         if symbol:
             labels.append(symbol)
-        labels.extend(aliases)
+        labels.extend(self._aliases)
         unit_registry.register(labels, self)
 
     def __array_finalize__(self, obj):
-- 
2.43.0


From 573a3db261f2cf54af005871d2e9ca8b6ab303e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:14 +0000
Subject: [PATCH 54/60] fix: a subclass of Quantity on the left of an uncertain
 quantity loses the uncertainty

---
 quantities/uncertainquantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 4afbd87..bcb03ba 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -128,9 +128,10 @@ class UncertainQuantity(Quantity):
             uf, objs, _ = context
             if (
                 uf in _reflected and len(objs) == uf.nin
-                and isinstance(objs[0], np.generic)
+                and not isinstance(objs[0], UncertainQuantity)
             ):
-                # NumPy scalars don't defer to the reflected operators
+                # NumPy scalars and subclasses of Quantity don't defer to the
+                # reflected operators
                 return getattr(self, _reflected[uf])(objs[0])
         return super().__array_wrap__(obj, context, return_scalar)
 
-- 
2.43.0


From 8eae20227410d4cafef361e4f28f253cc46e2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:14 +0000
Subject: [PATCH 55/60] fix: astype of an object of a subclass of Quantity
 returns a view whose units cannot be changed

---
 quantities/quantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 7ac1ec4..6a42b12 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -294,10 +294,12 @@ class Quantity(np.ndarray):
         # scalar quantities get converted to plain numbers, so we fix it
         # might be related to numpy ticket # 826
         if not isinstance(ret, type(self)):
+            # not a view, the units of which could not be changed any more
             if self.__array_priority__ >= Quantity.__array_priority__:
-                ret = type(self)(ret, self._dimensionality, dtype=ret.dtype)
+                ret = type(self)(
+                    np.asarray(ret), self._dimensionality, dtype=ret.dtype
+                )
             elif not isinstance(ret, Quantity):
-                # not a view, the units of which could not be changed any more
                 ret = Quantity(ret, self._dimensionality, dtype=ret.dtype)
 
         return ret
-- 
2.43.0


From fe93da3e2551e83948b2307a3b9a7258486625b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:47 +0000
Subject: [PATCH 56/60] fix: converting infinite values in a complex type gives
 nan

---
 quantities/quantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 6a42b12..326e232 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -240,6 +240,9 @@ class Quantity(np.ndarray):
                 'Unable to convert between units of "%s" and "%s"'
                 %(from_u._dimensionality, to_u._dimensionality)
             )
+        if not np.imag(cf):
+            # infinite values times a complex factor would be nan
+            cf = np.real(cf)
         new_magnitude = cf*self.magnitude
         if np.dtype(dtype).kind in 'fc':
             # the result has this type, the factor may be out of its range
-- 
2.43.0


From b52b48af9b3872480f4fec026f224f8c52f77c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:26 +0000
Subject: [PATCH 57/60] fix: text of an uncertain quantity mixes plain and
 unicode when the option is switched meanwhile

---
 quantities/uncertainquantity.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index bcb03ba..6ae5e7a 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -278,16 +278,19 @@ class UncertainQuantity(Quantity):
 
     @with_doc(Quantity.__str__, use_header=False)
     def __str__(self):
-        if markup.config.use_unicode:
-            dims = self.dimensionality.unicode
+        # read the setting only once, another thread may change it meanwhile
+        use_unicode = markup.config.use_unicode
+        if use_unicode:
+            format_units = markup.format_units_unicode
         else:
-            dims = self.dimensionality.string
-        s = '%s %s\n+/-%s (1 sigma)'%(
+            format_units = markup.format_units
+        s = '%s %s\n+/-%s %s (1 sigma)'%(
             str(self.magnitude),
-            dims,
-            str(self.uncertainty)
+            format_units(self.dimensionality, use_unicode),
+            str(self.uncertainty.magnitude),
+            format_units(self.uncertainty.dimensionality, use_unicode)
         )
-        if markup.config.use_unicode:
+        if use_unicode:
             return s.replace('+/-', '±').replace(' sigma', 'σ')
         return s
 
-- 
2.43.0


From 8854b327e3819f3bdc2c4f0e5ccd32b025af7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:26 +0000
Subject: [PATCH 58/60] fix: text of compound units mixes plain and unicode
 when the option is switched meanwhile

---
 quantities/unitquantity.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 2e66177..56ee271 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -407,6 +407,10 @@ class CompoundUnit(UnitQuantity):
     def __repr__(self):
         return '1 %s'%self.name
 
+    @with_doc(UnitQuantity.__str__, use_header=False)
+    def __str__(self):
+        return '1 %s'%self.name
+
     @property
     def name(self):
         if markup.config.use_unicode:
@@ -414,6 +418,15 @@ class CompoundUnit(UnitQuantity):
         else:
             return '(%s)'%self._name
 
+    # not read from the setting, another thread may change it meanwhile
+    @property
+    def symbol(self):
+        return '(%s)'%self._name
+
+    @property
+    def u_symbol(self):
+        return '(%s)'%(markup.superscript(self._name))
+
     def __reduce__(self):
         """
         Return a tuple for pickling a UnitQuantity.
-- 
2.43.0


From 23b83d98d1a43a74daa3e1a4c454dd3b3fdfc34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:30 +0000
Subject: [PATCH 59/60] fix: the sum of a complex quantity of a subclass and an
 uncertain one loses units and uncertainty

---
 quantities/uncertainquantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 6ae5e7a..280bb09 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -139,7 +139,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __add__(self, other):
         res = super().__add__(other)
-        u = np.hypot(self.uncertainty, _get_uncertainty(other))
+        u = np.hypot(abs(self.uncertainty), abs(_get_uncertainty(other)))
         return UncertainQuantity(res.magnitude, res._dimensionality, u)
 
     @with_doc(Quantity.__radd__, use_header=False)
@@ -151,7 +151,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __sub__(self, other):
         res = super().__sub__(other)
-        u = np.hypot(self.uncertainty, _get_uncertainty(other))
+        u = np.hypot(abs(self.uncertainty), abs(_get_uncertainty(other)))
         return UncertainQuantity(res.magnitude, res._dimensionality, u)
 
     @with_doc(Quantity.__rsub__, use_header=False)
-- 
2.43.0


From 6e830c2f67e042c7804804733785b9c224c9d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:30 +0000
Subject: [PATCH 60/60] fix: mean, max and min of an uncertain quantity over
 several axes raise TypeError

---
 quantities/uncertainquantity.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 280bb09..58352b2 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -321,7 +321,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             self.magnitude.mean(axis, dtype, out),
             self.dimensionality,
-            ((1.0/np.size(self,axis))**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
+            ((1.0/np.sum(np.ones(self.shape), axis))**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
         )
 
     @with_doc(np.nanmean)
@@ -337,34 +337,41 @@ class UncertainQuantity(Quantity):
     def sqrt(self, out=None):
         return self**0.5
 
-    def _take(self, idx, axis):
+    def _take(self, argfunc, axis):
         # the element(s) found by one of the arg-functions
+        mag, sigma = self.magnitude, self.uncertainty.magnitude
         if axis is None:
-            return self[np.unravel_index(idx, self.shape)]
-        idx = np.expand_dims(idx, axis)
+            return self[np.unravel_index(argfunc(mag), self.shape)]
+        if isinstance(axis, tuple):
+            # the arg-functions take one axis, so join these into the last one
+            n = self.ndim - len(axis)
+            mag, sigma = (
+                np.moveaxis(i, axis, range(n, self.ndim)) for i in (mag, sigma)
+            )
+            shape = mag.shape[:n] + (int(np.prod(mag.shape[n:])), )
+            mag, sigma, axis = mag.reshape(shape), sigma.reshape(shape), -1
+        idx = np.expand_dims(argfunc(mag, axis), axis)
         return UncertainQuantity(
-            np.take_along_axis(self.magnitude, idx, axis).squeeze(axis),
+            np.take_along_axis(mag, idx, axis).squeeze(axis),
             self._dimensionality,
-            np.take_along_axis(
-                self.uncertainty.magnitude, idx, axis
-            ).squeeze(axis)
+            np.take_along_axis(sigma, idx, axis).squeeze(axis)
         )
 
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        return self._take(np.argmax(self.magnitude, axis), axis)
+        return self._take(np.argmax, axis)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return self._take(np.nanargmax(self.magnitude, axis), axis)
+        return self._take(np.nanargmax, axis)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        return self._take(np.argmin(self.magnitude, axis), axis)
+        return self._take(np.argmin, axis)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return self._take(np.nanargmin(self.magnitude, axis), axis)
+        return self._take(np.nanargmin, axis)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-- 
2.43.0

