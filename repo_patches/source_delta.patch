From 9cb5ad061ea271be6865df7a8285000dc11000cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 01/35] fix: raise ValueError for a non-numeric dtype of Point
 and Curve

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 78ab123..7823bce 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -139,7 +139,7 @@ class Point(abc.Sequence):
             dtype = DEFAULT_DTYPE
 
         if not np.issubdtype(dtype, np.number):
-            ValueError('dtype must be a numeric type.')
+            raise ValueError('dtype must be a numeric type.')
 
         data = np.array(point_data, dtype=np.dtype(dtype))
 
@@ -1137,7 +1137,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         dtype = np.dtype(dtype)
 
         if not np.issubdtype(dtype, np.number):
-            ValueError(f"'dtype' must be a numeric type not {dtype}.")
+            raise ValueError(f"'dtype' must be a numeric type not {dtype}.")
 
         data = as2d(curve_data, axis=axis).astype(dtype)
 
-- 
2.43.0


From 2154b72d4831ba7913ae55e8b12151ce5592b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 02/35] fix: overlap of segments on a line with negative slope

---
 skcurve/_geomalg.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index e7284d0..258d45c 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -301,8 +301,15 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
     if np.any(data_maxmin > data_minmax):
         return None
 
-    return skcurve._base.Segment(p1=skcurve._base.Point(data_maxmin),
-                                 p2=skcurve._base.Point(data_minmax))
+    # Along the axes where the line goes in the opposite direction the overlap bounds are swapped
+    direction = p12_data - p11_data
+    if not np.any(direction):
+        direction = p22_data - p21_data
+
+    opposite = direction * direction[np.argmax(np.abs(direction))] < 0
+
+    return skcurve._base.Segment(p1=skcurve._base.Point(np.where(opposite, data_minmax, data_maxmin)),
+                                 p2=skcurve._base.Point(np.where(opposite, data_maxmin, data_minmax)))
 
 
 def segment_to_point(segment: 'Segment', point: 'Point') -> float:
-- 
2.43.0


From 9ad4f65146564eb3dc778c17c700f6a5def3db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 03/35] fix: collinearity of points on a line that does not
 pass through the origin

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 258d45c..250a480 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -199,7 +199,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     -----
 
     In n-dimensional space, a set of three or more distinct points are collinear
-    if and only if, the matrix of the coordinates of these vectors is of rank 1 or less.
+    if and only if, the matrix of the coordinates of these vectors relative to one of them is of rank 1 or less.
 
     Parameters
     ----------
@@ -225,7 +225,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     if m.shape[1] < 3:
         return True
 
-    return np.linalg.matrix_rank(m, tol=tol) <= 1
+    return np.linalg.matrix_rank(m - m[:, :1], tol=tol) <= 1
 
 
 def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From 679e0651ef00eb50fb8daffe3680d7ec4a097978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 04/35] fix: negative point index out of the curve size must
 raise IndexError

---
 skcurve/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 7823bce..dfd8bed 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -403,6 +403,8 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
     def __init__(self, curve: 'Curve', index: int):
         if index < 0:
             index = curve.size + index
+        if index < 0:
+            raise IndexError('The index is out of curve size')
 
         self._curve = curve
         self._idx = index
-- 
2.43.0


From 147d5b215013a2fc9e062faddee814303282ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 05/35] fix: negative segment index out of the curve size must
 raise ValueError

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index dfd8bed..ff1ead5 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -931,7 +931,7 @@ class CurveSegment(Segment):
     def __init__(self, curve: 'Curve', index: int) -> None:
         if index < 0:
             index = (curve.size - 1) + index
-        if index >= (curve.size - 1):
+        if index < 0 or index >= (curve.size - 1):
             raise ValueError('The index is out of curve size')
 
         self._curve = curve
-- 
2.43.0


From ad0e64895508e927148789f3267e1da9472705b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 06/35] fix: Curve.index returned wrong index for negative
 start

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index ff1ead5..2bb46da 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1394,7 +1394,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         indices = np.flatnonzero(is_close)
 
         if start:
-            indices += start
+            indices += slice(start, end).indices(self.size)[0]
 
         return indices[0]
 
-- 
2.43.0


From 93738e746063463ab5063898f612db894c7b8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 07/35] fix: chord lengths and arc lengths of an empty curve
 were uninitialized data

---
 skcurve/_diffgeom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 9265fff..ecaadd2 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -86,7 +86,7 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     """
 
     if not curve:
-        return np.ndarray([], dtype=np.float64)
+        return np.array([], dtype=np.float64)
 
     return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
 
@@ -237,6 +237,9 @@ class CurvePointFunctionMixin:
 
         """
 
+        if not self:
+            return np.array([], dtype=np.float64)
+
         return np.hstack((0.0, np.cumsum(self.chordlen)))
 
     @cached_property
-- 
2.43.0


From 108494ab277532e90b7cb02f2f5e3a9ccb4defcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 08/35] fix: empty sub-curves and copies lost the dimension of
 the curve

---
 skcurve/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 2bb46da..e43e246 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1144,7 +1144,10 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         data = as2d(curve_data, axis=axis).astype(dtype)
 
         if data.size == 0:
-            data = np.reshape([], (0, ndmin)).astype(dtype)
+            ndim = ndmin
+            if isinstance(curve_data, np.ndarray) and curve_data.ndim == 2 and axis == 0:
+                ndim = max(ndmin, curve_data.shape[1])
+            data = np.reshape([], (0, ndim)).astype(dtype)
 
         m, n = data.shape
 
-- 
2.43.0


From 676df00a42b43a263625e59a542ceba011da4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 09/35] fix: gradient of a curve with single point had wrong
 shape

---
 skcurve/_diffgeom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index ecaadd2..a45c6d1 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -149,7 +149,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
             break
     else:
         warnings.warn('Cannot calculate a numerical gradient.', DifferentialGeometryWarning)
-        return np.zeros((m_rows, 1), dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     return np.gradient(data, axis=0, edge_order=edge_order)
 
-- 
2.43.0


From e164fbb189c4853c33fc82b4bb122b0972eca859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 10/35] fix: IntersectionType.NONE could not be called with
 valid data

---
 skcurve/_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index bf51f66..f31cd70 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -57,7 +57,7 @@ class IntersectionType(enum.Enum):
     ALMOST = 3
 
     def __call__(self, intersect_data: ty.Optional[ty.Union['Point', 'Segment']] = None) -> 'IntersectionInfo':
-        if self == IntersectionType.NONE and intersect_data is not IntersectionType:
+        if self == IntersectionType.NONE and intersect_data is not None:
             raise ValueError(f"'intersect_data' must be 'None' for type {self}")
 
         if self == IntersectionType.EXACT and not isinstance(intersect_data, skcurve._base.Point):
-- 
2.43.0


From da381b438971cbe0c617ee6fc3d2aba0272c6b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 11/35] fix: register decorators replaced decorated objects
 with None

---
 skcurve/_interpolate.py | 1 +
 skcurve/_intersect.py   | 2 ++
 skcurve/_smooth.py      | 1 +
 3 files changed, 4 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index ba10931..5c9be25 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -394,6 +394,7 @@ def register_interpolator(method: str):
         if not issubclass(cls, InterpolatorBase):
             raise TypeError(f"{cls} is not a subclass of 'InterpolatorBase'")
         _interpolators[method] = cls
+        return cls
     return decorator
 
 
diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index f31cd70..b1d5971 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -435,6 +435,8 @@ def register_intersect_method(method: str, default: bool = False):
         if default:
             set_default_intersect_method(method)
 
+        return cls
+
     return decorator
 
 
diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index b71e98f..332f58c 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -71,6 +71,7 @@ def register_smooth_method(method: str):
             raise ValueError(
                 f"'{method}' smoothing method already registered for {_smooth_methods[method]}")
         _smooth_methods[method] = method_callable
+        return method_callable
 
     return decorator
 
-- 
2.43.0


From 9fbbacb7d0821b74ba9fd637c176b1a6491efd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 12/35] fix: nonsingular could leave close adjacent points in
 the curve

---
 skcurve/_diffgeom.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index a45c6d1..7f122b9 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -57,13 +57,16 @@ def nonsingular(curve: 'Curve'):
 
     """
 
-    chord_lengths = curve.chordlen
+    curve = curve.drop(lambda data: np.any(np.isnan(data) | np.isinf(data), axis=1))
 
-    def is_singular(curve_data):
-        return (np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1) |
-                np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
+    while True:
+        # New close points can become adjacent when the points between them have been removed
+        is_close = np.isclose(np.hstack([1.0, curve.chordlen]), 0.0)
 
-    return curve.drop(is_singular)
+        if not curve or not np.any(is_close):
+            return curve
+
+        curve = curve.drop(lambda data: is_close)
 
 
 def chordlen(curve: 'Curve') -> np.ndarray:
-- 
2.43.0


From 7ed3dbc9a3878d22c1169a1df3627942eb93d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 13/35] fix: window filter modified the window returned by the
 user function in place

---
 skcurve/_smooth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 332f58c..81f82de 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -168,7 +168,7 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
-    window /= window.sum()
+    window = window / window.sum()
 
     return ndimage.convolve1d(
         curve.data,
-- 
2.43.0


From e7e9aacebb283438b062b9d69c8e3c353bfd6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 14/35] fix: smoothed curve must have type numpy.float64

---
 skcurve/_smooth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 81f82de..f104c2e 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -173,6 +173,7 @@ def window_filter(curve: 'Curve',
     return ndimage.convolve1d(
         curve.data,
         weights=window,
+        output=np.float64,
         mode=mode,
         cval=cval,
         axis=0,
@@ -217,4 +218,4 @@ def smooth(curve: 'Curve', method: str, **params) -> 'Curve':
     except Exception as err:
         raise SmoothingError(f'Smoothing has failed: {err}') from err
 
-    return type(curve)(smoothed_data)
+    return type(curve)(smoothed_data, dtype=np.float64)
-- 
2.43.0


From 1f1da1694a7fefe303e563f1720e886015be8f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 15/35] fix: equality of points and curves was not symmetric

---
 skcurve/_numeric.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skcurve/_numeric.py b/skcurve/_numeric.py
index 104b529..a0b7737 100644
--- a/skcurve/_numeric.py
+++ b/skcurve/_numeric.py
@@ -36,11 +36,10 @@ def isequal(obj1: np.ndarray, obj2: np.ndarray, **kwargs) -> np.ndarray:
     """
 
     if np.issubdtype(obj1.dtype, np.integer) and np.issubdtype(obj2.dtype, np.integer):
-        cmp = np.equal
-    else:
-        cmp = np.isclose
+        return np.equal(obj1, obj2, **kwargs)
 
-    return cmp(obj1, obj2, **kwargs)
+    # `np.isclose` is not symmetric: its relative tolerance is scaled by the second argument only
+    return np.isclose(obj1, obj2, **kwargs) | np.isclose(obj2, obj1, **kwargs)
 
 
 def allequal(obj1: np.ndarray, obj2: np.ndarray, axis: ty.Optional[int] = None, **kwargs) -> np.ndarray:
-- 
2.43.0


From b8c74a512f4cdb8bde002c8b84af31c60cce36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 16/35] fix: interpolation of an empty curve must return an
 empty curve

---
 skcurve/_interpolate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 5c9be25..9eb3165 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -723,5 +723,10 @@ def interpolate(curve: 'Curve', grid_spec: InterpGridSpecType, method: str, **pa
 
     """
 
+    if not curve:
+        if method not in _interpolators:
+            raise NameError(f"Cannot find the interpolator for given method '{method}'")
+        return InterpolatorBase(curve)(grid_spec)
+
     interpolator = get_interpolator(method, curve, **params)
     return interpolator(grid_spec)
-- 
2.43.0


From 51e7e1a06ec7383108ea942ff6c3aca98281c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 17/35] fix: csaps interpolation on a grid with as many points
 as dimensions was transposed

---
 skcurve/_interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 9eb3165..62037f5 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -633,10 +633,10 @@ class CsapsInterpolator(InterpolatorBase):
                  weights: ty.Optional[np.ndarray] = None):
         super().__init__(curve)
         self.csaps = csaps.CubicSmoothingSpline(
-            curve.t, curve.data, weights=weights, smooth=smooth, axis=0)
+            curve.t, curve.data.T, weights=weights, smooth=smooth, axis=-1)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
-        return self.csaps(grid)
+        return self.csaps(grid).T
 
 
 def interp_methods() -> ty.List[str]:
-- 
2.43.0


From cdadbcf2c440acf45b2fed8ce512aab02c5f3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 18/35] fix: a negative axis outside the data must be rejected

---
 skcurve/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_utils.py b/skcurve/_utils.py
index e6bedc2..1fa5c2a 100644
--- a/skcurve/_utils.py
+++ b/skcurve/_utils.py
@@ -35,7 +35,7 @@ def as2d(arr: np.ndarray, axis: int) -> np.ndarray:
     orig_axis = axis
     axis = arr.ndim + axis if axis < 0 else axis
 
-    if axis >= arr.ndim:
+    if not 0 <= axis < arr.ndim:
         raise ValueError(f'axis {orig_axis} is out of array shape {arr.shape}.')
 
     tr_axes = list(range(arr.ndim))
-- 
2.43.0


From b0dba268a7f81bf07227a1ab3b4155faa3ce97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 19/35] fix: inserting an object of a wrong type must raise
 TypeError

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index e43e246..2f57f05 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1753,8 +1753,6 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        self._check_ndim(other)
-
         if isinstance(other, Point):
             other_data = np.array(other, ndmin=2)
         elif isinstance(other, Curve):
@@ -1762,6 +1760,8 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         else:
             raise TypeError('Inserted object must be Point or Curve instance')
 
+        self._check_ndim(other)
+
         try:
             return Curve(
                 np.insert(self._data, index, other_data, axis=0)
-- 
2.43.0


From 66e9b2f4ff3683d0d057ea08af7ae6376aa589c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 20/35] fix: values() of a negative axis outside the dimensions
 must raise ValueError

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 2f57f05..e584119 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1892,7 +1892,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         if axis is not None and not isinstance(axis, (int, np.integer)):
             raise ValueError('Axis must be an integer')
 
-        if axis is not None and axis >= self.ndim:
+        if axis is not None and not -self.ndim <= axis < self.ndim:
             raise ValueError(f'The axis {axis} is out of the curve dimensions {self.ndim}')
 
         if axis is not None:
-- 
2.43.0


From d3ae5591a705413067c3e59a8671418ae00763a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 21/35] fix: a numpy scalar on the left of a point must give a
 point

---
 skcurve/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index e584119..2940568 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -128,6 +128,9 @@ class Point(abc.Sequence):
 
     __slots__ = ('_data', )
 
+    # numpy scalars (but not arrays) leave binary operations to the reflected operators of points
+    __array_priority__ = -1.0
+
     def __init__(self, point_data: PointData, dtype: DType = None) -> None:
         """Constructs the `Point` instance
         """
-- 
2.43.0


From 887fefcde3f675d6c47f65463ee3f87568eb3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 22/35] fix: t() of a sequence of one point that is not on the
 segment raised IndexError

---
 skcurve/_geomalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 250a480..38454f3 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -103,7 +103,7 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
             f"The 'lstsq' residuals are {residuals}. 't' value(s) might be wrong.",
             GeometryAlgorithmsWarning)
 
-    t = t.squeeze()
+    t = t.squeeze(axis=0)
 
     if is_collinear.size == 0:
         return float(t)
-- 
2.43.0


From 8d2525d74284da7fe088e6c865201cf2bfac2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 23/35] fix: isplane raised for 3-dimensional curves of less
 than two points

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 38454f3..564fa12 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -251,8 +251,8 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
     else:
         points_data = np.vstack([point.data for point in points])
 
-    if points_data.shape[1] < 3:
-        # In dimension < 3 the points are coplanar
+    if points_data.shape[0] < 4 or points_data.shape[1] < 3:
+        # Less than 4 points or the points in dimension < 3 are coplanar
         return True
 
     # Relative differences
-- 
2.43.0


From 40021b24f4086f79c56a39d390580dc81039e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 24/35] fix: shortest segment to a singular segment started
 from a wrong point

---
 skcurve/_geomalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 564fa12..f2cf081 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -404,8 +404,8 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
             tn = e + b
             td = c
 
-    if tn < 0.0:
-        # tc < 0 => the t=0 edge is visible
+    if tn < 0.0 or c < tol:
+        # tc < 0 => the t=0 edge is visible (or the second segment is a point)
         tn = 0.0
         # recompute sc for this edge
         if -d < 0.0:
@@ -527,7 +527,7 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     tn[sn_gt_sd] = e[sn_gt_sd] + b[sn_gt_sd]
     td[sn_gt_sd] = c[sn_gt_sd]
 
-    tn_lt_zero = tn < 0
+    tn_lt_zero = (tn < 0) | (c < tol)
     tn[tn_lt_zero] = 0.0
 
     md_lt_zero = (-d < 0) & tn_lt_zero
-- 
2.43.0


From 3a500c3529edc9dadeae77b34b413647e33a1ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 25/35] fix: Point.distance ignored the additional arguments
 when the metric is a callable

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 2940568..80465b9 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -355,12 +355,12 @@ class Point(abc.Sequence):
         """
 
         if isinstance(metric, str):
-            metric = _distance.get_metric(metric, **kwargs)
+            metric = _distance.get_metric(metric)
 
         if not callable(metric):
             raise TypeError('Metric must be str or callable')
 
-        return metric(self._data, other.data)
+        return metric(self._data, other.data, **kwargs)
 
     def _op(self, op, other: ty.Union['Point', Numeric], right: bool = False) -> ty.Optional['Point']:
         left_data = self._data
-- 
2.43.0


From 162b7d3a370bd539ae9c46db210dbdc6dc29644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 26/35] fix: almost intersections of curves with integer data
 were truncated

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index f2cf081..80a4f86 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -556,8 +556,8 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     abs_sn_gt_tol = ~(np.abs(sn) < tol)
     abs_tn_gt_tol = ~(np.abs(tn) < tol)
 
-    t1 = np.zeros_like(dd)
-    t2 = np.zeros_like(dd)
+    t1 = np.zeros_like(dd, dtype=np.float64)
+    t2 = np.zeros_like(dd, dtype=np.float64)
 
     t1[abs_sn_gt_tol] = (sn / sd)[abs_sn_gt_tol]
     t2[abs_tn_gt_tol] = (tn / td)[abs_tn_gt_tol]
-- 
2.43.0


From 6a7faf832a456660c9e5d06a39e4bcd584914534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 27/35] fix: exact nearest point of a segment for points near
 its ends and for small segments

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 80a4f86..d516118 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -334,12 +334,12 @@ def segment_to_point(segment: 'Segment', point: 'Point') -> float:
 
     c1 = to_point_direction @ segment_direction
 
-    if c1 < 0 or np.isclose(c1, 0):
+    if c1 <= 0:
         return 0.0
 
     c2 = segment_direction @ segment_direction
 
-    if c2 < c1 or np.isclose(c2, c1):
+    if c2 <= c1:
         return 1.0
 
     t = c1 / c2
-- 
2.43.0


From 358d289c8caa240f5d7bc0d764ce535ae21686db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 28/35] fix: shortest segment between parallel segments with
 rounded coordinates and between small segments

---
 skcurve/_geomalg.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index d516118..78706ec 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -383,16 +383,15 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
     e = v @ w
 
     dd = a * c - b * b
-    sd = td = dd
+    sd = dd
 
     # Compute the line parameters of the two closest points
-    if dd < tol:
+    if dd <= tol * a * c:
         # the lines are almost parallel
         sn, sd = 0.0, 1.0
         tn, td = e, c
     else:
         sn = b * e - c * d
-        tn = a * e - b * d
 
         if sn < 0.0:
             # sc < 0 => the s=0 edge is visible
@@ -401,10 +400,12 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
         elif sn > sd:
             # sc > 1  => the s=1 edge is visible
             sn = sd
-            tn = e + b
-            td = c
+            tn, td = e + b, c
+        else:
+            # the best t for this s, also when the denominator is a rounding error of parallel lines
+            tn, td = e + b * (sn / sd), c
 
-    if tn < 0.0 or c < tol:
+    if tn < 0.0 or c == 0.0:
         # tc < 0 => the t=0 edge is visible (or the second segment is a point)
         tn = 0.0
         # recompute sc for this edge
@@ -428,8 +429,8 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
             sd = a
 
     # finally do the division to get sc and tc
-    t1 = 0.0 if np.abs(sn) < tol else sn / sd
-    t2 = 0.0 if np.abs(tn) < tol else tn / td
+    t1 = 0.0 if sn == 0.0 else sn / sd
+    t2 = 0.0 if tn == 0.0 else tn / td
 
     return t1, t2
 
@@ -497,37 +498,35 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
 
     dd = a * c - b * b
     sd = dd.copy()
-    td = dd.copy()
+    td = c.copy()
 
     sn = np.zeros_like(dd)
-    tn = np.zeros_like(dd)
+    tn = np.zeros_like(dd, dtype=np.float64)
 
-    dd_lt_tol = dd < tol
+    dd_lt_tol = dd <= tol * a * c
     not_dd_lt_tol = ~dd_lt_tol
 
     sd[dd_lt_tol] = 1.0
     tn[dd_lt_tol] = e[dd_lt_tol]
-    td[dd_lt_tol] = c[dd_lt_tol]
 
     be_cd = b * e - c * d
-    ae_bd = a * e - b * d
 
     sn[not_dd_lt_tol] = be_cd[not_dd_lt_tol]
-    tn[not_dd_lt_tol] = ae_bd[not_dd_lt_tol]
+
+    # the best t for this s, also when the denominator is a rounding error of parallel lines
+    tn[not_dd_lt_tol] = (e + b * (sn / sd))[not_dd_lt_tol]
 
     sn_lt_zero = (sn < 0) & not_dd_lt_tol
 
     sn[sn_lt_zero] = 0.0
     tn[sn_lt_zero] = e[sn_lt_zero]
-    td[sn_lt_zero] = c[sn_lt_zero]
 
     sn_gt_sd = (sn > sd) & not_dd_lt_tol
 
     sn[sn_gt_sd] = sd[sn_gt_sd]
     tn[sn_gt_sd] = e[sn_gt_sd] + b[sn_gt_sd]
-    td[sn_gt_sd] = c[sn_gt_sd]
 
-    tn_lt_zero = (tn < 0) | (c < tol)
+    tn_lt_zero = (tn < 0) | (c == 0)
     tn[tn_lt_zero] = 0.0
 
     md_lt_zero = (-d < 0) & tn_lt_zero
@@ -553,14 +552,14 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn[bmd_else] = bmd[bmd_else]
     sd[bmd_else] = a[bmd_else]
 
-    abs_sn_gt_tol = ~(np.abs(sn) < tol)
-    abs_tn_gt_tol = ~(np.abs(tn) < tol)
+    sn_nonzero = sn != 0
+    tn_nonzero = tn != 0
 
     t1 = np.zeros_like(dd, dtype=np.float64)
     t2 = np.zeros_like(dd, dtype=np.float64)
 
-    t1[abs_sn_gt_tol] = (sn / sd)[abs_sn_gt_tol]
-    t2[abs_tn_gt_tol] = (tn / td)[abs_tn_gt_tol]
+    t1[sn_nonzero] = sn[sn_nonzero] / sd[sn_nonzero]
+    t2[tn_nonzero] = tn[tn_nonzero] / td[tn_nonzero]
 
     p1 = p11 + t1 * u
     p2 = p21 + t2 * v
-- 
2.43.0


From 894df0780aa59a268e1f96379265c9faf431e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 29/35] fix: parallel() of segments with rounded coordinates
 and of small segments

---
 skcurve/_geomalg.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 78706ec..42b728c 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -170,7 +170,8 @@ def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_E
     segment2 : Segment
         The second segment
     tol : float
-        Epsilon. It is a small float number. By default float64 eps
+        Epsilon. It is a small float number. By default float64 eps. The segments are parallel
+        if the squared sine of the angle between them is not greater than this value.
 
     Returns
     -------
@@ -182,13 +183,11 @@ def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_E
     u = segment1.direction
     v = segment2.direction
 
-    a = u @ u
-    b = u @ v
-    c = v @ v
-
-    d = a * c - b * b
+    # The squared area of the parallelogram on the direction vectors
+    uv = np.outer(u.data, v.data)
+    area2 = np.sum((uv - uv.T) ** 2) / 2
 
-    return d < tol
+    return area2 <= tol * (u @ u) * (v @ v)
 
 
 def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From 399bbf69eca1edbc3e45c595bf7764005ae3e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 30/35] fix: angle between short segments was NaN as if they
 were points

---
 skcurve/_geomalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 42b728c..f3ed934 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -140,15 +140,16 @@ def segments_angle(segment1: 'Segment', segment2: 'Segment',
     u1 = segment1.direction
     u2 = segment2.direction
 
-    denominator = u1.norm() * u2.norm()
+    norm1 = u1.norm()
+    norm2 = u2.norm()
 
-    if np.isclose(denominator, 0.0):
+    if np.isclose(norm1, 0.0) or np.isclose(norm2, 0.0):
         warnings.warn(
             'Cannot compute angle between segments. One or both segments degenerate into a point.',
             GeometryAlgorithmsWarning)
         return np.nan
 
-    cos_phi = (u1 @ u2) / denominator
+    cos_phi = (u1 @ u2) / (norm1 * norm2)
 
     if ndigits is not None:
         cos_phi = round(cos_phi, ndigits=ndigits)
-- 
2.43.0


From 2cd93edc00fcae7675476ed81fe894bbc711c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 31/35] fix: exact intersection accepted points further beyond
 the end of a segment than before its start

---
 skcurve/_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index b1d5971..081337e 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -507,7 +507,7 @@ class ExactIntersectionMethod(IntersectionMethodBase):
                     IntersectionWarning)
 
         if np.all(((t > 0) | np.isclose(t, 0)) &
-                  ((t < 1) | np.isclose(t, 1))):
+                  ((t < 1) | np.isclose(t - 1, 0))):
             intersect_point1 = segment1.point(t[0])
             intersect_point2 = segment2.point(t[1])
 
-- 
2.43.0


From aaf70e3a96bea5550bc9fa8b744cb68c53fda45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 32/35] fix: interpolation grids with small steps were refused
 and NaN values accepted

---
 skcurve/_interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 62037f5..56d7c0f 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -357,7 +357,7 @@ class InterpolatorBase:
 
         dt = np.diff(grid)
 
-        if np.any(dt < 0) or np.any(np.isclose(dt, 0)):
+        if not np.all(dt > 0):
             raise ValueError(
                 'The values in the interpolation grid must be strictly increasing ordered.')
 
-- 
2.43.0


From 8c7345e00d329fd08584cc07835851e9a1e6cf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:36 +0000
Subject: [PATCH 33/35] fix: chord lengths of curves with integer data
 overflowed

---
 skcurve/_diffgeom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 7f122b9..85a2d99 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -91,7 +91,10 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     if not curve:
         return np.array([], dtype=np.float64)
 
-    return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
+    # The differences and squares might overflow for integer dtypes
+    data = curve.data.astype(np.float64)
+
+    return np.sqrt(np.sum((np.diff(data, axis=0))**2, axis=1))
 
 
 def arclen(curve: 'Curve') -> float:
-- 
2.43.0


From 43f2011906225823d18199d5798cb4322fccee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:36 +0000
Subject: [PATCH 34/35] fix: shortest segments between curves with integer data
 overflowed

---
 skcurve/_geomalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index f3ed934..5d835b5 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -477,6 +477,10 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
 
     """
 
+    # The differences and products might overflow for integer dtypes
+    data1 = np.asarray(data1, dtype=np.float64)
+    data2 = np.asarray(data2, dtype=np.float64)
+
     m1 = data1.shape[0] - 1
     m2 = data2.shape[0] - 1
 
-- 
2.43.0


From 6f1f5485b587cf38e17ed91f8fb901000e4e8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:45 +0000
Subject: [PATCH 35/35] fix: collinearity and coplanarity of points with
 integer data overflowed

---
 skcurve/_geomalg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 5d835b5..42d905c 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -220,7 +220,8 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     else:
         points_data = np.vstack([point.data for point in points]).T
 
-    m = np.unique(points_data, axis=1)
+    # The differences might overflow for integer dtypes
+    m = np.unique(points_data.astype(np.float64), axis=1)
 
     if m.shape[1] < 3:
         return True
@@ -247,7 +248,7 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
     """
 
     if isinstance(points, np.ndarray):
-        points_data = np.array(points)
+        points_data = points
     else:
         points_data = np.vstack([point.data for point in points])
 
@@ -255,7 +256,8 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
         # Less than 4 points or the points in dimension < 3 are coplanar
         return True
 
-    # Relative differences
+    # Relative differences (they might overflow for integer dtypes)
+    points_data = points_data.astype(np.float64)
     points_data -= points_data[-1, :]
     return np.linalg.matrix_rank(points_data[:-1, :], tol=tol) <= 2
 
-- 
2.43.0

