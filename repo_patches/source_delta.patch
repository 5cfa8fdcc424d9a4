From 122a5154c2c206452332ce2802e744b83c6b97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 01/54] fix: honour axis=0 instead of silently using the last
 axis

An axis argument of 0 is falsy and was replaced by -1. timestamps=False
(no time axis) is now also respected for plain arrays.
---
 rigid_body_motion/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8d0abfe..4d08cc3 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -395,8 +395,10 @@ def _maybe_unpack_dataarray(
     if not is_dataarray(arr):
         if dim is not None:
             raise ValueError("dim argument specified without DataArray input")
-        axis = axis or -1
+        axis = -1 if axis is None else axis
         time_axis = time_axis or 0
+        if timestamps is False:
+            timestamps = None
         time_dim = None
         coords = None
         dims = None
@@ -410,7 +412,7 @@ def _maybe_unpack_dataarray(
         elif dim is not None:
             axis = arr.dims.index(dim)
         else:
-            axis = axis or -1
+            axis = -1 if axis is None else axis
             dim = str(arr.dims[axis])
         if isinstance(timestamps, str):
             # TODO convert datetimeindex?
-- 
2.43.0


From 25002b75c2cf1f954c193b02099eeba46b5700d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 02/54] fix: qmean returns the dominant eigenvector

The eigenvalue sorting was used to index rows of the eigenvector matrix, so
the result was generally not an average of the inputs.
---
 rigid_body_motion/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1cd7a42..5452dcf 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -122,14 +122,17 @@ def qmean(q, axis=None, qaxis=-1):
     A = np.mean(q * qt, axis=axis)
 
     # compute largest eigenvector of A
+    # (eigenvectors are the columns of v)
     l, v = np.linalg.eig(A)
-    idx = np.unravel_index(l.argsort()[..., ::-1], l.shape) + (0,)
-    v = v[idx]
+    idx = np.real(l).argmax(axis=-1)[..., np.newaxis, np.newaxis]
+    v = np.take_along_axis(v, idx, axis=-1)[..., 0]
 
     qm = np.real(v)
 
     if was_quaternion:
         return as_quat_array(qm)
+    elif qm.ndim == 1:
+        return qm
     else:
         return np.swapaxes(qm, -1, qaxis)
 
-- 
2.43.0


From 9ed758a97f1a87bd4fd7ed615beed2c3bc3a04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 03/54] fix: rotate_vectors with arrays of non-unit quaternions

The squared norm, not the norm, normalizes the rotation; this is also what is
used when rotating by a single quaternion.
---
 rigid_body_motion/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 5452dcf..2622546 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -259,7 +259,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     q = as_float_array(q)
     r = q[..., 1:]
     s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.linalg.norm(q, axis=-1, keepdims=True), -1, axis)
+    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From 04e653cb9935eabb76ee4acdc7ae5045f3ad47e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 04/54] fix: rotate_vectors with spatial axes other than the
 last

With more than one other dimension, swapping instead of moving the spatial axis
permuted the remaining dimensions of the quaternion array.
---
 rigid_body_motion/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 2622546..a2f791d 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -234,7 +234,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     v = np.asarray(v)
 
     if q.dtype != quaternion:
-        q = as_quat_array(np.swapaxes(q, qaxis, -1))
+        q = as_quat_array(np.moveaxis(q, qaxis, -1))
 
     if not one_to_one or q.ndim == 0:
         return quat_rv(q, v, axis=axis)
@@ -258,8 +258,8 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     # compute rotation
     q = as_float_array(q)
     r = q[..., 1:]
-    s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
+    s = np.moveaxis(q[..., :1], -1, axis)
+    m = np.moveaxis(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From 62799cadc056fc7d544114070c1e3585ff2f6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 05/54] fix: transform arrays whose spatial or time axis is not
 in default position

The transform methods swapped the time axis to the front without accounting
for the spatial axis, added translations along the last axis and decided by
the length of the last axis whether an array contains quaternions.
---
 rigid_body_motion/reference_frames.py | 37 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6306901..52ae173 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -286,10 +286,22 @@ class ReferenceFrame(NodeMixin):
                     f"as the timestamps"
                 )
             # TODO this should be done somewhere else
-            arr = np.swapaxes(arr, 0, time_axis)
+            arr = np.moveaxis(arr, (time_axis, axis), (0, -1))
+        else:
+            arr = np.moveaxis(arr, axis, -1)
 
         return arr, timestamps
 
+    @classmethod
+    def _restore_axes(cls, arr, ndim, axis, timestamps, time_axis):
+        """Undo the axis permutation of _validate_input."""
+        if timestamps is not None:
+            arr = np.moveaxis(arr, (0, -1), (time_axis, axis))
+        elif arr.ndim == ndim:
+            arr = np.moveaxis(arr, -1, axis)
+
+        return arr
+
     @classmethod
     def _expand_singleton_axes(cls, t_or_r, ndim):
         """Expand singleton axes for correct broadcasting with array."""
@@ -631,17 +643,16 @@ class ReferenceFrame(NodeMixin):
         ts: array_like, shape (n_timestamps,) or None
             The timestamps after the transformation.
         """
+        ndim = np.ndim(arr)
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, ndim, axis, timestamps, time_axis)
 
         if not return_timestamps:
             return arr
@@ -692,6 +703,7 @@ class ReferenceFrame(NodeMixin):
         ts: array_like, shape (n_timestamps,) or None
             The timestamps after the transformation.
         """
+        ndim = np.ndim(arr)
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
@@ -699,12 +711,10 @@ class ReferenceFrame(NodeMixin):
 
         t = self._expand_singleton_axes(t, arr.ndim)
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
         arr = arr + np.array(t)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, ndim, axis, timestamps, time_axis)
 
         if not return_timestamps:
             return arr
@@ -756,19 +766,16 @@ class ReferenceFrame(NodeMixin):
         ts: array_like, shape (n_timestamps,) or None
             The timestamps after the transformation.
         """
+        ndim = np.ndim(arr)
         arr, arr_ts = self._validate_input(arr, axis, 4, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = np.swapaxes(arr, axis, -1)
-        arr = as_quat_array(r) * as_quat_array(arr)
-        arr = np.swapaxes(as_float_array(arr), -1, axis)
+        arr = as_float_array(as_quat_array(r) * as_quat_array(arr))
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, ndim, axis, timestamps, time_axis)
 
         if not return_timestamps:
             return arr
-- 
2.43.0


From db77bd032675c7a499b6d68d2d25664fde3ee5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 06/54] fix: transform velocities of multi-dimensional arrays

The looked-up velocities were not broadcast along the remaining axes, and the
array layout given by axis and time_axis was ignored when adding them.
---
 rigid_body_motion/reference_frames.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 52ae173..04572a8 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -878,6 +878,8 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        # count from the end because a time axis might be prepended
+        axis = axis % np.ndim(arr) - np.ndim(arr)
         arr, ts = self.transform_vectors(
             arr,
             to_frame,
@@ -887,10 +889,13 @@ class ReferenceFrame(NodeMixin):
             return_timestamps=True,
         )
 
+        ndim = np.ndim(arr)
+        arr, ts = self._validate_input(arr, axis, 3, ts, time_axis)
         arr, angular, ts_out = self._match_arrays(
             [(arr, ts), (angular, angular_ts)]
         )
-        arr += angular
+        arr = arr + self._expand_singleton_axes(angular, arr.ndim)
+        arr = self._restore_axes(arr, ndim, axis, ts, time_axis)
 
         if return_timestamps:
             return arr, ts_out
@@ -1022,6 +1027,8 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        # count from the end because a time axis might be prepended
+        axis = axis % np.ndim(arr) - np.ndim(arr)
         arr, ts = self.transform_vectors(
             arr,
             to_frame,
@@ -1037,6 +1044,8 @@ class ReferenceFrame(NodeMixin):
             return_timestamps=True,
         )
 
+        ndim = np.ndim(arr)
+        arr, ts = self._validate_input(arr, axis, 3, ts, time_axis)
         arr, linear, angular, translation, ts_out = self._match_arrays(
             [
                 (arr, ts),
@@ -1045,7 +1054,9 @@ class ReferenceFrame(NodeMixin):
                 (translation, translation_ts),
             ]
         )
-        arr = arr + linear + np.cross(angular, translation)
+        velocity = linear + np.cross(angular, translation)
+        arr = arr + self._expand_singleton_axes(velocity, arr.ndim)
+        arr = self._restore_axes(arr, ndim, axis, ts, time_axis)
 
         if return_timestamps:
             return arr, ts_out
-- 
2.43.0


From 66c9f869984334dd4f62686a3c5fdfdfdb77a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 07/54] fix: best_fit_rotation must not return a reflection

For coplanar or noisy vectors the SVD solution can have determinant -1, which is
not a rotation. Handle it like best_fit_transform does.
---
 rigid_body_motion/estimators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index c886d00..4cc7d58 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -324,6 +324,11 @@ def best_fit_rotation(v1, v2, dim=None, axis=None):
     U, S, Vt = np.linalg.svd(H)
     R = np.dot(Vt.T, U.T)
 
+    # special reflection case
+    if np.linalg.det(R) < 0:
+        Vt[2, :] *= -1
+        R = np.dot(Vt.T, U.T)
+
     # rotation as quaternion
     rotation = as_float_array(from_rotation_matrix(R))
 
-- 
2.43.0


From 44287b657c9db8bf185d3d0719c47a86c6b23530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 08/54] fix: vector estimators do not need a time dimension

The first dimension of DataArray arguments was looked up as timestamps, which
failed without a coordinate for it or when it is the spatial dimension.
---
 rigid_body_motion/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 4cc7d58..52fe208 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -20,7 +20,7 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     v1, axis, _, _, _, _, coords, *_ = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None)
+    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None, False)
 
     if v1.shape[axis] != 3 or v2.shape[axis] != 3:
         raise ValueError(
@@ -262,7 +262,7 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
         The quaternion representation of the shortest-arc rotation.
     """
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
-        v1, dim, axis, None
+        v1, dim, axis, None, False
     )
     v1 = np.asarray(v1)
     v2 = np.asarray(v2)
-- 
2.43.0


From ca78d3f5e5f2943a2868b07522f8b96a6a281998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 09/54] fix: shortest_arc_rotation of antiparallel vectors

Returned NaN, or an inaccurate rotation for nearly antiparallel vectors.
---
 rigid_body_motion/estimators.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 52fe208..f28d5e1 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -272,7 +272,19 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
     d12 = np.sum(v1 * v2, axis=axis, keepdims=True)
     c12 = np.cross(v1, v2, axis=axis)
     rotation = np.concatenate((np.sqrt(sn1 * sn2) + d12, c12), axis=axis)
-    rotation /= np.linalg.norm(rotation, axis=axis, keepdims=True)
+    norm = np.linalg.norm(rotation, axis=axis, keepdims=True)
+
+    # antiparallel vectors: rotate by pi around any axis orthogonal to v1
+    antiparallel = norm <= 1e-8 * np.sqrt(sn1 * sn2)
+    if np.any(antiparallel):
+        v = np.moveaxis(v1 + np.zeros_like(c12), axis, -1)
+        e = np.eye(3)[np.argmin(np.abs(v), axis=-1)]
+        ortho = np.moveaxis(np.cross(v, e), -1, axis)
+        rotation_pi = np.concatenate((np.zeros_like(norm), ortho), axis=axis)
+        rotation = np.where(antiparallel, rotation_pi, rotation)
+        norm = np.linalg.norm(rotation, axis=axis, keepdims=True)
+
+    rotation /= norm
 
     if coords is not None:
         coords, dims = _replace_dim(coords, dims, axis, "quaternion", 3)
-- 
2.43.0


From 79cb1380774ba2db770ab8918b86088926435fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 10/54] fix: failed frame construction must not alter the tree

A frame was attached to its parent before its arguments were validated.
---
 rigid_body_motion/reference_frames.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 04572a8..a8f75b1 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -184,14 +184,13 @@ class ReferenceFrame(NodeMixin):
         self.name = name
 
         if parent is not None:
-            self.parent = _resolve_rf(parent)
+            parent = _resolve_rf(parent)
             (
                 self.translation,
                 self.rotation,
                 self.timestamps,
             ) = self._init_arrays(translation, rotation, timestamps, inverse)
         else:
-            self.parent = None
             self._verify_root(translation, rotation, timestamps)
             self.translation, self.rotation, self.timestamps = None, None, None
 
@@ -200,6 +199,9 @@ class ReferenceFrame(NodeMixin):
         else:
             self.discrete = discrete
 
+        # attach last so that invalid arguments leave the tree unchanged
+        self.parent = parent
+
     def __del__(self):
         """Destructor."""
         if self.name in _registry and _registry[self.name] is self:
-- 
2.43.0


From f5d5631452d2eda84b5a5e345e10e51dab9f43e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 11/54] fix: failed frame registration must not alter the tree

register_frame left a new frame attached to the parent when the name was
already registered.
---
 rigid_body_motion/reference_frames.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index a8f75b1..edfc43b 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -112,7 +112,11 @@ def register_frame(
         inverse=inverse,
         discrete=discrete,
     )
-    _register(rf, update=update)
+    try:
+        _register(rf, update=update)
+    except ValueError:
+        rf.parent = None
+        raise
 
 
 def deregister_frame(name):
-- 
2.43.0


From 3c796df29ad0c18026a36a1aa9f67383ea78f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 12/54] fix: re-registering a frame with update=True must not
 detach it

---
 rigid_body_motion/reference_frames.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index edfc43b..8c20379 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -22,7 +22,8 @@ def _register(rf, update=False):
     if rf.name in _registry:
         if update:
             # TODO keep children?
-            _registry[rf.name].parent = None
+            if _registry[rf.name] is not rf:
+                _registry[rf.name].parent = None
         else:
             raise ValueError(
                 f"Reference frame with name {rf.name} is already registered. "
-- 
2.43.0


From 2954e81744556d0555875ed8b608037d5ad58609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 13/54] fix: deregistering a frame must not remove another
 frame of the same name

---
 rigid_body_motion/reference_frames.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 8c20379..f388aeb 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -1358,4 +1358,8 @@ class ReferenceFrame(NodeMixin):
 
     def deregister(self):
         """Remove this frame from the registry."""
+        if _registry.get(self.name, self) is not self:
+            raise ValueError(
+                f"A different reference frame is registered as {self.name}"
+            )
         _deregister(self.name)
-- 
2.43.0


From 632faf946fcb3ac733acdc501da09d24f3e83330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 14/54] fix: plotting a reference frame must update the z axis
 limits

---
 rigid_body_motion/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index 86abb46..c805741 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -80,7 +80,7 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     ]
     ax.set_xlim3d(x_lim_new)
     ax.set_ylim3d(y_lim_new)
-    ax.set_ylim3d(z_lim_new)
+    ax.set_zlim3d(z_lim_new)
 
     return [x_arrow, y_arrow, z_arrow]
 
-- 
2.43.0


From e21ca50b7556951f1589f6c0d6b8e381ad00a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 15/54] fix: broadcaster must publish index 0 when asked to

publish(0) published the transform at the current playback position.
---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index c18b13b..973d93c 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -453,7 +453,7 @@ class ReferenceFrameTransformBroadcaster:
                     self.base.name,
                 )
         else:
-            idx = idx or self.idx
+            idx = self.idx if idx is None else idx
             ts = self.timestamps.values[idx].astype(float) / 1e9
             transform = make_transform_msg(
                 self.translation[idx],
-- 
2.43.0


From eb700b4d89207952ac99de2b867d899485e3922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 16/54] fix: subscribed broadcaster fails with pandas 2

Index.get_loc has no method argument any more.
---
 rigid_body_motion/ros/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 973d93c..f6e3bcb 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -493,7 +493,9 @@ class ReferenceFrameTransformBroadcaster:
                     ts = pd.to_datetime(
                         rospy.Time.to_sec(transform.header.stamp), unit="s"
                     )
-                    idx = self.timestamps.get_loc(ts, method="nearest")
+                    idx = self.timestamps.get_indexer([ts], method="nearest")[
+                        0
+                    ]
                     self.publish(idx)
                 else:
                     self.publish()
-- 
2.43.0


From 8d61364b8b24c36595658ac789c02b567c2f9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 17/54] fix: sub-sampling of reference frame markers

Fewer than max_points translations resulted in a zero slice step, and for other
numbers the marker could have almost twice as many points as allowed.
---
 rigid_body_motion/ros/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index a9f65d9..a48d4e6 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -208,7 +208,7 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
         )
-        show_every = self.translation.shape[0] // max_points
+        show_every = max(1, -(-self.translation.shape[0] // max_points))
         marker.points = [Point(*row) for row in self.translation[::show_every]]
 
         topic = topic or f"/{self.frame.name}/path"
-- 
2.43.0


From c4da99c7dc279b935d2ed24f8d1fbd300e074b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 18/54] fix: RosbagReader.export must accept a str path as
 documented

---
 rigid_body_motion/ros/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 4f1dada..8169e76 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -39,8 +39,8 @@ class RosbagReader:
             folder, filename = self.bag_file.parent, self.bag_file.stem
             filename = folder / f"{filename}.{extension}"
         else:
-            folder = output_file.parent
-            filename = output_file
+            filename = Path(output_file)
+            folder = filename.parent
 
         folder.mkdir(parents=True, exist_ok=True)
 
-- 
2.43.0


From 8589368623c210a0f3b95b3f3015f53ad71dcea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 19/54] fix: published stamps of frames with numeric timestamps

Numeric timestamps are seconds, as in the playback loop, not nanoseconds.
---
 rigid_body_motion/ros/transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index f6e3bcb..539403a 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -437,6 +437,8 @@ class ReferenceFrameTransformBroadcaster:
             Index of the transform to publish for a moving reference frame.
             Uses ``self.idx`` as default.
         """
+        import pandas as pd
+
         from .msg import make_pose_msg, make_transform_msg, make_twist_msg
 
         if self.timestamps is None:
@@ -454,7 +456,9 @@ class ReferenceFrameTransformBroadcaster:
                 )
         else:
             idx = self.idx if idx is None else idx
-            ts = self.timestamps.values[idx].astype(float) / 1e9
+            ts = self.timestamps.values[idx].astype(float)
+            if isinstance(self.timestamps, pd.DatetimeIndex):
+                ts = ts / 1e9
             transform = make_transform_msg(
                 self.translation[idx],
                 self.rotation[idx],
-- 
2.43.0


From a7911d769d09cf2e4b6cf0c33e03a61b00da39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 20/54] fix: backward button of playback widget stuck at the
 last message

---
 rigid_body_motion/ros/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 2c3f8ce..09a6cc9 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -107,7 +107,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # backward button
     def button_minus(name):
-        s_idx.value -= skip or step if s_idx.value < s_idx.max else 0
+        s_idx.value -= skip or step if s_idx.value > s_idx.min else 0
 
     backward = widgets.Button(
         description="◄◄", layout=widgets.Layout(width="50px")
-- 
2.43.0


From 58cda109a46df5db830b3c7049da668df04e57a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 21/54] fix: cartesian_to_spherical at the origin and close to
 the poles

theta was NaN at the origin and lost half of its digits close to the z axis.
---
 rigid_body_motion/coordinate_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 373da27..a62d737 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -82,7 +82,8 @@ def cartesian_to_spherical(arr, axis=-1):
         )
 
     r = np.linalg.norm(arr, axis=axis)
-    theta = np.arccos(np.take(arr, 2, axis=axis) / r)
+    rho = np.hypot(np.take(arr, 0, axis=axis), np.take(arr, 1, axis=axis))
+    theta = np.arctan2(rho, np.take(arr, 2, axis=axis))
     phi = np.arctan2(np.take(arr, 1, axis=axis), np.take(arr, 0, axis=axis))
     return np.stack((r, theta, phi), axis=axis)
 
-- 
2.43.0


From 6017f465afb7a6ee71d9ac49c52acc71556f0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 22/54] fix: convert OptiTrack positions exported in
 millimeters to meters

---
 rigid_body_motion/io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/io.py b/rigid_body_motion/io.py
index 532e26e..30880c5 100644
--- a/rigid_body_motion/io.py
+++ b/rigid_body_motion/io.py
@@ -54,10 +54,13 @@ def load_optitrack(filepath, import_format="numpy"):
         for idx, gp in df.groupby(level=0, axis=1)
     }
 
-    # convert cm to m (if applicable)
-    if meta.get("Length Units", None) == "Centimeters":
+    # convert cm or mm to m (if applicable)
+    factor = {"Centimeters": 100, "Millimeters": 1000}.get(
+        meta.get("Length Units", None)
+    )
+    if factor is not None:
         for name in data_dict:
-            data_dict[name]["Position"] /= 100
+            data_dict[name]["Position"] /= factor
 
     # convert orientation to quaternions
     for name in data_dict:
-- 
2.43.0


From e8f2dfc430460102a5448490244305a7172d9715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 23/54] fix: datetimes with units other than nanoseconds

They were interpreted as nanoseconds when converting to seconds and when
matching them with other timestamps.
---
 rigid_body_motion/core.py             | 12 ++++++++++--
 rigid_body_motion/reference_frames.py |  5 +++--
 rigid_body_motion/ros/io.py           |  3 ++-
 rigid_body_motion/ros/utils.py        |  3 +++
 rigid_body_motion/utils.py            |  6 +++---
 5 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 4d08cc3..d912bdc 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -315,6 +315,14 @@ class TransformMatcher:
         return (*arrays, timestamps)
 
 
+def _convert_timestamps(timestamps):
+    """Convert datetimes with any unit to nanoseconds."""
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        timestamps = timestamps.astype("datetime64[ns]")
+
+    return timestamps
+
+
 def _resolve_axis(axis, ndim):
     """Convert axis argument into actual array axes."""
     if isinstance(axis, int) and axis < 0:
@@ -738,7 +746,7 @@ def _estimate_angular_velocity(
 ):
     """Estimate angular velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _convert_timestamps(timestamps).astype(float) / 1e9
 
     axis = axis % rotation.ndim
     time_axis = time_axis % rotation.ndim
@@ -801,7 +809,7 @@ def _estimate_linear_velocity(
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _convert_timestamps(timestamps).astype(float) / 1e9
 
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index f388aeb..5c841ee 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -6,6 +6,7 @@ from quaternion import as_float_array, as_quat_array, from_rotation_matrix
 
 from rigid_body_motion.core import (
     TransformMatcher,
+    _convert_timestamps,
     _estimate_angular_velocity,
     _estimate_linear_velocity,
     _resolve_rf,
@@ -224,7 +225,7 @@ class ReferenceFrame(NodeMixin):
     def _init_arrays(translation, rotation, timestamps, inverse):
         """Initialize translation, rotation and timestamp arrays."""
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _convert_timestamps(np.asarray(timestamps))
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional.")
             t_shape = (len(timestamps), 3)
@@ -284,7 +285,7 @@ class ReferenceFrame(NodeMixin):
             )
 
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _convert_timestamps(np.asarray(timestamps))
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional")
             if arr.shape[time_axis] != len(timestamps):
diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 8169e76..9466cf2 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -355,7 +355,8 @@ class RosbagWriter:
             Name of the variable containing the rotation.
         """
         if np.issubdtype(ds[timestamps].dtype, np.datetime64):
-            timestamps = ds[timestamps].astype(float) / 1e9
+            timestamps = ds[timestamps].astype("datetime64[ns]")
+            timestamps = timestamps.astype(float) / 1e9
         else:
             timestamps = ds[timestamps]
 
diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 09a6cc9..9833681 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -5,6 +5,8 @@ import warnings
 
 import numpy as np
 
+from rigid_body_motion.core import _convert_timestamps
+
 
 def init_node(name, start_master=False):
     """Register a client node with the master.
@@ -89,6 +91,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
     if timestamps is None:
         timestamps = np.asarray(publisher.timestamps)
 
+    timestamps = _convert_timestamps(np.asarray(timestamps))
     interval = np.mean(np.diff(timestamps.astype(float) / 1e6)) / speed
 
     # position bar
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index a2f791d..cb633de 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -14,7 +14,7 @@ from quaternion import (
 from quaternion import rotate_vectors as quat_rv
 from quaternion import squad
 
-from rigid_body_motion.core import _resolve_axis
+from rigid_body_motion.core import _convert_timestamps, _resolve_axis
 
 
 def qinv(q, qaxis=-1):
@@ -167,8 +167,8 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
     """
     # TODO xarray support
     axis = axis % q.ndim
-    t_in = np.array(t_in).astype(float)
-    t_out = np.array(t_out).astype(float)
+    t_in = _convert_timestamps(np.array(t_in)).astype(float)
+    t_out = _convert_timestamps(np.array(t_out)).astype(float)
 
     if q.dtype != quaternion:
         qaxis = qaxis % q.ndim
-- 
2.43.0


From 05ae8102050b199f907cec664e2b20aaeb32904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 24/54] fix: accept array_like arguments as documented

Several functions required numpy arrays and failed for lists and tuples.
---
 rigid_body_motion/coordinate_systems.py | 4 ++++
 rigid_body_motion/core.py               | 3 +++
 rigid_body_motion/reference_frames.py   | 1 +
 rigid_body_motion/utils.py              | 4 ++++
 4 files changed, 12 insertions(+)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index a62d737..3c6f167 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -19,6 +19,7 @@ def cartesian_to_polar(arr, axis=-1):
     arr_polar : array_like
         Output array.
     """
+    arr = np.asarray(arr)
     if arr.shape[axis] != 2:
         raise ValueError(
             f"Expected length of axis {axis} to be 2, got {arr.shape[axis]} "
@@ -46,6 +47,7 @@ def polar_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
+    arr = np.asarray(arr)
     if arr.shape[axis] != 2:
         raise ValueError(
             f"Expected length of axis {axis} to be 2, got {arr.shape[axis]} "
@@ -75,6 +77,7 @@ def cartesian_to_spherical(arr, axis=-1):
     arr_spherical : array_like
         Output array.
     """
+    arr = np.asarray(arr)
     if arr.shape[axis] != 3:
         raise ValueError(
             f"Expected length of axis {axis} to be 3, got {arr.shape[axis]} "
@@ -106,6 +109,7 @@ def spherical_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
+    arr = np.asarray(arr)
     if arr.shape[axis] != 3:
         raise ValueError(
             f"Expected length of axis {axis} to be 3, got {arr.shape[axis]} "
diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index d912bdc..e16f7d9 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -407,6 +407,9 @@ def _maybe_unpack_dataarray(
         time_axis = time_axis or 0
         if timestamps is False:
             timestamps = None
+        elif timestamps is not None:
+            timestamps = np.asarray(timestamps)
+        arr = np.asarray(arr)
         time_dim = None
         coords = None
         dims = None
diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 5c841ee..5f2490c 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -549,6 +549,7 @@ class ReferenceFrame(NodeMixin):
             The constructed reference frame.
         """
         # TODO support moving reference frame
+        mat = np.asarray(mat)
         if mat.shape != (3, 3):
             raise ValueError(
                 f"Expected mat to have shape (3, 3), got {mat.shape}"
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index cb633de..941cb30 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -37,6 +37,7 @@ def qinv(q, qaxis=-1):
         A new array containing the inverse values.
     """
     # TODO xarray support
+    q = np.asarray(q)
     if q.dtype != quaternion:
         q = np.swapaxes(q, qaxis, -1)
         qi = as_float_array(1 / as_quat_array(q))
@@ -68,6 +69,7 @@ def qmul(*q, qaxis=-1):
     if len(q) < 2:
         raise ValueError("Please provide at least 2 quaternions to multiply")
 
+    q = tuple(np.asarray(qq) for qq in q)
     if all(qq.dtype != quaternion for qq in q):
         q = (as_quat_array(np.swapaxes(qq, qaxis, -1)) for qq in q)
         qm = reduce(operator.mul, q, 1)
@@ -107,6 +109,7 @@ def qmean(q, axis=None, qaxis=-1):
         A new array containing the mean values.
     """
     # TODO xarray support
+    q = np.asarray(q)
     if q.dtype != quaternion:
         q = np.swapaxes(q, qaxis, -1)
         was_quaternion = False
@@ -166,6 +169,7 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
         A new array containing the interpolated values.
     """
     # TODO xarray support
+    q = np.asarray(q)
     axis = axis % q.ndim
     t_in = _convert_timestamps(np.array(t_in)).astype(float)
     t_out = _convert_timestamps(np.array(t_out)).astype(float)
-- 
2.43.0


From fefa2e871b0ddb6c8cbb16ae06460c7a835723d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 25/54] fix: outlier suppression for linear velocity with
 non-default axes

---
 rigid_body_motion/core.py       | 13 ++++++++++---
 rigid_body_motion/estimators.py |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index e16f7d9..092fbdf 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -808,7 +808,12 @@ def _estimate_angular_velocity(
 
 
 def _estimate_linear_velocity(
-    translation, timestamps, time_axis=0, outlier_thresh=None, cutoff=None
+    translation,
+    timestamps,
+    time_axis=0,
+    outlier_thresh=None,
+    cutoff=None,
+    axis=-1,
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
@@ -817,11 +822,13 @@ def _estimate_linear_velocity(
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
     if outlier_thresh is not None:
-        dt = np.linalg.norm(np.diff(translation, n=2, axis=time_axis), axis=1)
+        dt = np.linalg.norm(
+            np.diff(translation, n=2, axis=time_axis), axis=axis
+        )
         dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
         linear = interp1d(
             timestamps[dt <= outlier_thresh],
-            linear[dt <= outlier_thresh],
+            np.compress(dt <= outlier_thresh, linear, axis=time_axis),
             axis=time_axis,
             bounds_error=False,
         )(timestamps)
diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index f28d5e1..89f1539 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -135,6 +135,7 @@ def estimate_linear_velocity(
         time_axis=time_axis,
         outlier_thresh=outlier_thresh,
         cutoff=cutoff,
+        axis=axis,
     )
 
     if coords is not None:
-- 
2.43.0


From 68ea6829fb216fd160911b9e03286d44d141f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 26/54] fix: keep axes of multi-dimensional quaternions without
 common timestamps

---
 rigid_body_motion/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 092fbdf..ecf6fb0 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -91,13 +91,17 @@ class TransformMatcher:
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-                return as_float_array(
+                resampled = as_float_array(
                     squad(
                         as_quat_array(array.data),
                         array.timestamps.astype(float),
                         timestamps.astype(float),
                     )
                 )
+                # squad drops the other axes if there are no timestamps left
+                return resampled.reshape(
+                    (len(timestamps),) + array.data.shape[1:]
+                )
             else:
                 # TODO method + optional scipy dependency?
                 return interp1d(
-- 
2.43.0


From ac42d002b6e1a7d286eb642d38adc778eaba1021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 27/54] fix: transforms of single timestamped samples are NaN
 or fail

---
 rigid_body_motion/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index ecf6fb0..94ba370 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -62,6 +62,10 @@ class TransformMatcher:
             rotation = np.tile(frame.rotation[0], (len(timestamps), 1))
             for r, ts in zip(frame.rotation, frame.timestamps):
                 rotation[timestamps >= ts, :] = r
+        elif np.array_equal(frame.timestamps, timestamps):
+            # single samples cannot be interpolated
+            translation = frame.translation
+            rotation = frame.rotation
         else:
             # TODO method + optional scipy dependency?
             translation = interp1d(
@@ -88,6 +92,9 @@ class TransformMatcher:
                 return array.data
             else:
                 return np.tile(array.data, (len(timestamps), 1))
+        elif np.array_equal(array.timestamps, timestamps):
+            # single samples cannot be interpolated
+            return array.data
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-- 
2.43.0


From f645248322509708c5880adb533f83f1fdce9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 28/54] fix: velocity transforms of one-dimensional DataArrays
 fail

---
 rigid_body_motion/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 94ba370..5fcc67c 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -592,6 +592,9 @@ def _transform(
 
     into = _resolve_rf(into)
 
+    # not resolved for arrays without time axis
+    time_axis = time_axis or 0
+
     if method in ("transform_angular_velocity", "transform_linear_velocity"):
         kwargs["what"] = what
 
-- 
2.43.0


From d757bb40ccf752b3a01d4840125bc2f33fd5da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 29/54] fix: coordinates of DataArrays with datetimes other
 than ns interpolate to NaN

---
 rigid_body_motion/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 5fcc67c..960c85f 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -497,6 +497,9 @@ def _make_dataarray(arr, coords, dims, name, attrs, time_dim, ts_out):
                 f"{time_dim} is not a coordinate of this DataArray"
             )
         assert ts_out is not None
+        if np.issubdtype(ts_out.dtype, np.datetime64):
+            # xarray doesn't interpolate between datetimes of different units
+            ts_out = ts_out.astype(coords[time_dim].dtype)
         if len(coords[time_dim]) != len(ts_out) or np.any(
             coords[time_dim] != ts_out
         ):
-- 
2.43.0


From f5f2ddea004c04b17cf2c68b81ecfed547e52bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 30/54] fix: reject Euler angle orders that are not a
 permutation

---
 rigid_body_motion/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 941cb30..a6e5917 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -367,15 +367,14 @@ def from_euler_angles(
         )
 
     # rearrange rotors according to order
-    rotors = [None] * 3
-    try:
-        rotors[order.index("r")] = roll
-        rotors[order.index("p")] = pitch
-        rotors[order.index("y")] = yaw
-    except (ValueError, IndexError):
+    if sorted(order) != ["p", "r", "y"]:
         raise ValueError(
             f"order must be a permutation of 'r', 'p' and 'y', got {order}"
         )
+    rotors = [None] * 3
+    rotors[order.index("r")] = roll
+    rotors[order.index("p")] = pitch
+    rotors[order.index("y")] = yaw
 
     # chain rotors
     q = quaternion(1, 0, 0, 0)
-- 
2.43.0


From 23de2c7db9c5d93d6380a6730873e21e71d8fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 31/54] fix: accessor interpolates coordinates of datetimes
 with different units

---
 rigid_body_motion/accessors.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/accessors.py b/rigid_body_motion/accessors.py
index ed9b5b3..2d2cf4c 100644
--- a/rigid_body_motion/accessors.py
+++ b/rigid_body_motion/accessors.py
@@ -2,6 +2,7 @@ import numpy as np
 import xarray as xr
 from xarray.core.utils import either_dict_or_kwargs
 
+from .core import _convert_timestamps
 from .utils import qinterp, qinv
 
 
@@ -86,7 +87,14 @@ class DataArrayAccessor:
                 coords_out[c] = t_out
             elif interp_dim in coords_out[c].dims:
                 if np.issubdtype(coords_out[c].dtype, np.number):
-                    coords_out[c] = coords_out[c].interp(coords)
+                    # xarray doesn't interpolate between datetimes of different
+                    # units
+                    coord = coords_out[c].assign_coords(
+                        {interp_dim: _convert_timestamps(t_in)}
+                    )
+                    coords_out[c] = coord.interp(
+                        {interp_dim: _convert_timestamps(np.asarray(t_out))}
+                    )
                 else:
                     coords_out[c] = coords_out[c].sel(coords, method="nearest")
 
-- 
2.43.0


From 156186bf92848ef4636e5c956724c3b44d0c6956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 32/54] fix: missing Euler angles must not become the identity
 rotation

---
 rigid_body_motion/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index a6e5917..bef9e90 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -270,6 +270,15 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     return vr
 
 
+def _from_rotation_vector(rot):
+    """Construct quaternions from rotation vectors, retaining NaNs."""
+    q = as_float_array(from_rotation_vector(rot))
+
+    return as_quat_array(
+        np.where(np.isnan(rot).any(axis=-1, keepdims=True), np.nan, q)
+    )
+
+
 def from_euler_angles(
     rpy=None,
     roll=None,
@@ -331,7 +340,7 @@ def from_euler_angles(
     if roll is not None:
         roll = np.asarray(roll)
         shape = roll.shape
-        roll = from_rotation_vector(
+        roll = _from_rotation_vector(
             np.stack((roll, np.zeros(shape), np.zeros(shape)), axis=-1)
         )
 
@@ -344,7 +353,7 @@ def from_euler_angles(
                 f"Inconsistent shape for pitch argument: expected {shape}, "
                 f"got {pitch.shape}"
             )
-        pitch = from_rotation_vector(
+        pitch = _from_rotation_vector(
             np.stack((np.zeros(shape), pitch, np.zeros(shape)), axis=-1)
         )
 
@@ -357,7 +366,7 @@ def from_euler_angles(
                 f"Inconsistent shape for yaw argument: expected {shape}, "
                 f"got {yaw.shape}"
             )
-        yaw = from_rotation_vector(
+        yaw = _from_rotation_vector(
             np.stack((np.zeros(shape), np.zeros(shape), yaw), axis=-1)
         )
 
-- 
2.43.0


From 8f517892660219ed8a880a0b17e43a5d81d77093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 33/54] fix: plots must extend the axis limits of previous
 plots

---
 rigid_body_motion/plotting.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index c805741..959b7dd 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -46,6 +46,9 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
         y = transform_points(y, outof=frame, into=world_frame)
         z = transform_points(z, outof=frame, into=world_frame)
 
+    # include the frame when axis limits are updated by subsequent plots
+    ax.auto_scale_xyz(*np.transpose([o, x, y, z]), had_data=ax.has_data())
+
     arrow_prop_dict = dict(
         mutation_scale=20, arrowstyle="->", shrinkA=0, shrinkB=0
     )
@@ -78,9 +81,9 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
         np.min((z_lim_old[0], o[2], x[2], y[2], z[2])),
         np.max((z_lim_old[1], o[2], x[2], y[2], z[2])),
     ]
-    ax.set_xlim3d(x_lim_new)
-    ax.set_ylim3d(y_lim_new)
-    ax.set_zlim3d(z_lim_new)
+    ax.set_xlim3d(x_lim_new, auto=None)
+    ax.set_ylim3d(y_lim_new, auto=None)
+    ax.set_zlim3d(z_lim_new, auto=None)
 
     return [x_arrow, y_arrow, z_arrow]
 
@@ -104,9 +107,15 @@ def _set_axes_equal(ax):
     # norm, hence I call half the max range the plot radius.
     plot_radius = 0.5 * max([x_range, y_range, z_range])
 
-    ax.set_xlim3d([x_middle - plot_radius, x_middle + plot_radius])
-    ax.set_ylim3d([y_middle - plot_radius, y_middle + plot_radius])
-    ax.set_zlim3d([z_middle - plot_radius, z_middle + plot_radius])
+    ax.set_xlim3d(
+        [x_middle - plot_radius, x_middle + plot_radius], auto=None
+    )
+    ax.set_ylim3d(
+        [y_middle - plot_radius, y_middle + plot_radius], auto=None
+    )
+    ax.set_zlim3d(
+        [z_middle - plot_radius, z_middle + plot_radius], auto=None
+    )
 
 
 def plot_reference_frame(
-- 
2.43.0


From 7fc0a06e509ad19f802ef08bce3d1e42c5e2521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 34/54] fix: transformer drops the first sample when the cache
 time is rounded down

---
 rigid_body_motion/ros/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 539403a..1416da1 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -65,8 +65,9 @@ class Transformer:
         if len(t_start_end) == 0:
             transformer = Transformer(cache_time=None)
         else:
-            # cache time from earliest start to latest end
-            cache_time = np.max(t_start_end[1]) - np.min(t_start_end[0])
+            # cache time from earliest start to latest end, with a margin so
+            # that the first sample isn't dropped because of rounding
+            cache_time = np.max(t_start_end[1]) - np.min(t_start_end[0]) + 1e-3
             transformer = Transformer(cache_time=cache_time)
 
         for node in PreOrderIter(root):
-- 
2.43.0


From dfbcb7df9d4874941061368f696152508013d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 35/54] fix: published twists must have the time stamp of the
 transform

---
 rigid_body_motion/ros/transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 1416da1..769f970 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -443,6 +443,7 @@ class ReferenceFrameTransformBroadcaster:
         from .msg import make_pose_msg, make_transform_msg, make_twist_msg
 
         if self.timestamps is None:
+            ts = 0.0
             transform = make_transform_msg(
                 self.translation,
                 self.rotation,
@@ -483,7 +484,7 @@ class ReferenceFrameTransformBroadcaster:
         if self.twist_publisher is not None:
             self.twist_publisher.publish(
                 make_twist_msg(
-                    self.linear[idx], self.angular[idx], self.frame.name
+                    self.linear[idx], self.angular[idx], self.frame.name, ts
                 )
             )
 
-- 
2.43.0


From 52032455afe644ca406e7e0d98d42f8710ef1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 36/54] fix: subscribed broadcaster of frames with numeric
 timestamps

---
 rigid_body_motion/ros/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 769f970..d05cb69 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -496,9 +496,9 @@ class ReferenceFrameTransformBroadcaster:
         for transform in msg.transforms:
             if transform.child_frame_id == self.subscribe_to_frame:
                 if self.timestamps is not None:
-                    ts = pd.to_datetime(
-                        rospy.Time.to_sec(transform.header.stamp), unit="s"
-                    )
+                    ts = rospy.Time.to_sec(transform.header.stamp)
+                    if isinstance(self.timestamps, pd.DatetimeIndex):
+                        ts = pd.to_datetime(ts, unit="s")
                     idx = self.timestamps.get_indexer([ts], method="nearest")[
                         0
                     ]
-- 
2.43.0


From 6d202e09a59d1c66091c6786f70e73bedf2178a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 37/54] fix: stopping a publisher right after spinning had no
 effect

---
 rigid_body_motion/ros/transformer.py   | 5 +++--
 rigid_body_motion/ros/visualization.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index d05cb69..78c173d 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -511,8 +511,6 @@ class ReferenceFrameTransformBroadcaster:
         import pandas as pd
         import rospy
 
-        self.stopped = False
-
         if self.subscriber is None and self.timestamps is not None:
             while not rospy.is_shutdown() and not self.stopped:
                 self.publish()
@@ -555,6 +553,9 @@ class ReferenceFrameTransformBroadcaster:
         thread: threading.Thread
             If `block=True`, the Thread instance that runs the loop.
         """
+        # reset here so that calling stop() before the thread runs has an effect
+        self.stopped = False
+
         if self.timestamps is None:
             self.publish()
         elif block:
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index a48d4e6..bf219e6 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -129,8 +129,6 @@ class BaseMarkerPublisher:
         """Continuously publish messages."""
         import rospy
 
-        self.stopped = False
-
         while not rospy.is_shutdown() and not self.stopped:
             self.publish()
             rospy.sleep(self.publish_interval)
@@ -153,6 +151,9 @@ class BaseMarkerPublisher:
         thread: threading.Thread
             If `block=True`, the Thread instance that runs the loop.
         """
+        # reset here so that calling stop() before the thread runs has an effect
+        self.stopped = False
+
         if block:
             self._spin_blocking()
         else:
-- 
2.43.0


From 1320900330db3d654b450be34d11813a5aac704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 38/54] fix: spin must return the thread as documented

---
 rigid_body_motion/ros/transformer.py   | 3 ++-
 rigid_body_motion/ros/visualization.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 78c173d..3478ed4 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -551,7 +551,7 @@ class ReferenceFrameTransformBroadcaster:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
         # reset here so that calling stop() before the thread runs has an effect
         self.stopped = False
@@ -563,6 +563,7 @@ class ReferenceFrameTransformBroadcaster:
         else:
             self._thread = Thread(target=self._spin_blocking)
             self._thread.start()
+            return self._thread
 
     def stop(self):
         """Stop publishing."""
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index bf219e6..3604078 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -149,7 +149,7 @@ class BaseMarkerPublisher:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
         # reset here so that calling stop() before the thread runs has an effect
         self.stopped = False
@@ -159,6 +159,7 @@ class BaseMarkerPublisher:
         else:
             self._thread = Thread(target=self._spin_blocking)
             self._thread.start()
+            return self._thread
 
     def stop(self):
         """Stop publishing."""
-- 
2.43.0


From 369acb982167a048fe2e4bf3de4d836c29a59d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 39/54] fix: marker publisher for static reference frames

---
 rigid_body_motion/ros/visualization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 3604078..c48e665 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -1,6 +1,8 @@
 from io import BytesIO
 from threading import Thread
 
+import numpy as np
+
 from rigid_body_motion.core import _resolve_rf
 
 
@@ -206,6 +208,7 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         self.frame = _resolve_rf(frame)
         self.base = _resolve_rf(base or self.frame.parent)
         self.translation, _, _ = self.frame.lookup_transform(self.base)
+        self.translation = np.atleast_2d(self.translation)
 
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
-- 
2.43.0


From b1f9e317f519da4a29685ab09ed4693fc5ee9106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 40/54] fix: get_marker must create arrow markers when asked to

---
 rigid_body_motion/ros/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index c48e665..6f9888e 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -65,7 +65,9 @@ def get_marker(
 
     marker = Marker()
 
-    marker.type = marker_type or Marker.LINE_STRIP
+    marker.type = (
+        marker_type if marker_type is not None else Marker.LINE_STRIP
+    )
     marker.header.frame_id = frame_id
 
     if isinstance(scale, float):
-- 
2.43.0


From 0b198cd44877ec931fde378bb6d01548aaf987d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 41/54] fix: exported values out of the packed range are lost

---
 rigid_body_motion/ros/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 9466cf2..0bb4942 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -56,9 +56,15 @@ class RosbagReader:
             "_FillValue": np.iinfo(dtype).min,
         }
 
+        # values that don't fit in the packed range would get lost
+        limit = comp["scale_factor"] * np.iinfo(dtype).max
+
         encoding = {}
         for v in ds.data_vars:
-            encoding[v] = comp
+            if np.any(np.abs(ds[v].values) >= limit):
+                encoding[v] = {"zlib": True}
+            else:
+                encoding[v] = comp
 
         ds.to_netcdf(filename, encoding=encoding)
 
-- 
2.43.0


From 47933cba743f7e20c6837807bb884a5564f65a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 42/54] fix: transformer of frames with numeric timestamps

---
 rigid_body_motion/ros/transformer.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 3478ed4..74a5e50 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -7,6 +7,14 @@ from rigid_body_motion.core import _resolve_rf
 from rigid_body_motion.reference_frames import ReferenceFrame
 
 
+def _timestamps_to_sec(timestamps):
+    """Convert timestamps to float seconds."""
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        return timestamps.astype("datetime64[ns]").astype(float) / 1e9
+    else:
+        return timestamps.astype(float)
+
+
 class Transformer:
     """Wrapper class for tf2_ros.Buffer.
 
@@ -48,14 +56,10 @@ class Transformer:
         root = reference_frame.root
 
         # get the first and last timestamps for all moving reference frames
-        # TODO float timestamps
         t_start_end = list(
             zip(
                 *[
-                    (
-                        node.timestamps[0].astype(float) / 1e9,
-                        node.timestamps[-1].astype(float) / 1e9,
-                    )
+                    tuple(_timestamps_to_sec(node.timestamps)[[0, -1]])
                     for node in PreOrderIter(root)
                     if node.timestamps is not None
                 ]
@@ -109,7 +113,7 @@ class Transformer:
         for translation, rotation, timestamp in zip(
             reference_frame.translation,
             reference_frame.rotation,
-            reference_frame.timestamps,
+            _timestamps_to_sec(reference_frame.timestamps),
         ):
             self._buffer.set_transform(
                 make_transform_msg(
@@ -117,7 +121,7 @@ class Transformer:
                     rotation,
                     reference_frame.parent.name,
                     reference_frame.name,
-                    timestamp.astype(float) / 1e9,
+                    timestamp,
                 ),
                 "default_authority",
             )
-- 
2.43.0


From 12d1dda5f4a7fb3b5574e1706e1e5405abb105dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 43/54] fix: playback interval for numeric timestamps

---
 rigid_body_motion/ros/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 9833681..3cb5917 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -92,7 +92,11 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
         timestamps = np.asarray(publisher.timestamps)
 
     timestamps = _convert_timestamps(np.asarray(timestamps))
-    interval = np.mean(np.diff(timestamps.astype(float) / 1e6)) / speed
+    interval = np.mean(np.diff(timestamps.astype(float))) / speed
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        interval = interval / 1e6
+    else:
+        interval = interval * 1e3
 
     # position bar
     s_idx = widgets.IntSlider(
-- 
2.43.0


From 2c15de11e588cef98ce7356d36b1f967269164e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:57 +0000
Subject: [PATCH 44/54] fix: missing samples spread to their neighbours in
 clipped transforms

---
 rigid_body_motion/core.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 960c85f..6ca427e 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -42,6 +42,19 @@ class TransformMatcher:
                     "of array"
                 )
 
+    @classmethod
+    def _get_own_samples(cls, own_timestamps, timestamps):
+        """Slice of own_timestamps that equals timestamps or None."""
+        if not len(timestamps):
+            return None
+
+        start = np.searchsorted(own_timestamps, timestamps[0])
+        samples = slice(start, start + len(timestamps))
+        if np.array_equal(own_timestamps[samples], timestamps):
+            return samples
+
+        return None
+
     @classmethod
     def _transform_from_frame(cls, frame, timestamps):
         """Get the transform from a frame resampled to the timestamps."""
@@ -62,10 +75,13 @@ class TransformMatcher:
             rotation = np.tile(frame.rotation[0], (len(timestamps), 1))
             for r, ts in zip(frame.rotation, frame.timestamps):
                 rotation[timestamps >= ts, :] = r
-        elif np.array_equal(frame.timestamps, timestamps):
-            # single samples cannot be interpolated
-            translation = frame.translation
-            rotation = frame.rotation
+        elif (
+            samples := cls._get_own_samples(frame.timestamps, timestamps)
+        ) is not None:
+            # single samples cannot be interpolated and missing samples must
+            # not affect their neighbours
+            translation = frame.translation[samples]
+            rotation = frame.rotation[samples]
         else:
             # TODO method + optional scipy dependency?
             translation = interp1d(
@@ -92,9 +108,12 @@ class TransformMatcher:
                 return array.data
             else:
                 return np.tile(array.data, (len(timestamps), 1))
-        elif np.array_equal(array.timestamps, timestamps):
-            # single samples cannot be interpolated
-            return array.data
+        elif (
+            samples := cls._get_own_samples(array.timestamps, timestamps)
+        ) is not None:
+            # single samples cannot be interpolated and missing samples must
+            # not affect their neighbours
+            return array.data[samples]
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-- 
2.43.0


From 6d1bc390353f20b0a18101e549673c7b8f072d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 45/54] fix: overflow in rotation estimates for integer vectors

---
 rigid_body_motion/estimators.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 89f1539..db10cff 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -34,6 +34,10 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     v1 = np.swapaxes(v1, axis, -1).reshape(-1, 3)
     v2 = np.swapaxes(v2, axis, -1).reshape(-1, 3)
 
+    # products of integers might overflow
+    v1 = np.asarray(v1, dtype=float)
+    v2 = np.asarray(v2, dtype=float)
+
     if same_shape and v1.shape != v2.shape:
         raise ValueError("v1 and v2 must have the same shape")
 
@@ -265,8 +269,9 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v1 = np.asarray(v1)
-    v2 = np.asarray(v2)
+    # products of integers might overflow
+    v1 = np.asarray(v1, dtype=float)
+    v2 = np.asarray(v2, dtype=float)
 
     sn1 = np.sum(v1**2, axis=axis, keepdims=True)
     sn2 = np.sum(v2**2, axis=axis, keepdims=True)
-- 
2.43.0


From aed1eff0d222fa7810a35d231504ce59822d8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 46/54] fix: angular velocity of integer quaternions was
 truncated

---
 rigid_body_motion/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 6ca427e..db664f9 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -795,7 +795,8 @@ def _estimate_angular_velocity(
     if time_axis == rotation.ndim - 1:
         time_axis = axis
 
-    r = np.swapaxes(rotation, axis, -1)
+    # integers would be truncated when differentiating
+    r = np.swapaxes(rotation, axis, -1).astype(float)
 
     if mode == "quaternion":
         # any NaNs need to be removed because derivative breaks otherwise
-- 
2.43.0


From 001c0bc7583fc2c80ee5550e779d8a5838a5689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 47/54] fix: outliers of small or unsigned integer positions
 were misjudged

---
 rigid_body_motion/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index db664f9..c50182d 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -856,6 +856,8 @@ def _estimate_linear_velocity(
     if np.issubdtype(timestamps.dtype, np.datetime64):
         timestamps = _convert_timestamps(timestamps).astype(float) / 1e9
 
+    # differences of small or unsigned integers would wrap around
+    translation = translation.astype(float)
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
     if outlier_thresh is not None:
-- 
2.43.0


From 288a559fbf4dabb35fdcf4c11ff17a6a44e1db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 48/54] fix: rotation matrices of small or unsigned integers
 wrapped around

---
 rigid_body_motion/reference_frames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 5f2490c..b507084 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -549,7 +549,7 @@ class ReferenceFrame(NodeMixin):
             The constructed reference frame.
         """
         # TODO support moving reference frame
-        mat = np.asarray(mat)
+        mat = np.asarray(mat, dtype=float)
         if mat.shape != (3, 3):
             raise ValueError(
                 f"Expected mat to have shape (3, 3), got {mat.shape}"
-- 
2.43.0


From 761b1bfbe24767b8c63eb74858b56ebaae5860aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 49/54] fix: coordinates of small integer type were converted
 with half precision

---
 rigid_body_motion/coordinate_systems.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 3c6f167..68c608c 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -3,6 +3,12 @@
 import numpy as np
 
 
+def _as_inexact(arr):
+    """Convert integers, which numpy's functions might give low precision."""
+    arr = np.asarray(arr)
+    return arr if np.issubdtype(arr.dtype, np.inexact) else arr.astype(float)
+
+
 def cartesian_to_polar(arr, axis=-1):
     """Transform cartesian to polar coordinates in two dimensions.
 
@@ -19,7 +25,7 @@ def cartesian_to_polar(arr, axis=-1):
     arr_polar : array_like
         Output array.
     """
-    arr = np.asarray(arr)
+    arr = _as_inexact(arr)
     if arr.shape[axis] != 2:
         raise ValueError(
             f"Expected length of axis {axis} to be 2, got {arr.shape[axis]} "
@@ -47,7 +53,7 @@ def polar_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
-    arr = np.asarray(arr)
+    arr = _as_inexact(arr)
     if arr.shape[axis] != 2:
         raise ValueError(
             f"Expected length of axis {axis} to be 2, got {arr.shape[axis]} "
@@ -77,7 +83,7 @@ def cartesian_to_spherical(arr, axis=-1):
     arr_spherical : array_like
         Output array.
     """
-    arr = np.asarray(arr)
+    arr = _as_inexact(arr)
     if arr.shape[axis] != 3:
         raise ValueError(
             f"Expected length of axis {axis} to be 3, got {arr.shape[axis]} "
@@ -109,7 +115,7 @@ def spherical_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
-    arr = np.asarray(arr)
+    arr = _as_inexact(arr)
     if arr.shape[axis] != 3:
         raise ValueError(
             f"Expected length of axis {axis} to be 3, got {arr.shape[axis]} "
-- 
2.43.0


From 899f069ff70e5e2995d01167762cd53b2b9d10fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 50/54] fix: qmean rejected negative axes given as numpy
 integers

---
 rigid_body_motion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index c50182d..f985b8f 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -355,7 +355,7 @@ def _convert_timestamps(timestamps):
 
 def _resolve_axis(axis, ndim):
     """Convert axis argument into actual array axes."""
-    if isinstance(axis, int) and axis < 0:
+    if isinstance(axis, (int, np.integer)) and axis < 0:
         axis = ndim + axis
     elif isinstance(axis, tuple):
         axis = tuple(ndim + a if a < 0 else a for a in axis)
-- 
2.43.0


From ba21ae74d01511de30f49b6d4b0fc06bec24e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 51/54] fix: stop() did not end spinning of subscribed
 broadcasters

---
 rigid_body_motion/ros/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 74a5e50..98a20e6 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -537,7 +537,9 @@ class ReferenceFrameTransformBroadcaster:
 
                 rospy.sleep(dt)
         else:
-            rospy.spin()
+            # messages are handled in another thread
+            while not rospy.is_shutdown() and not self.stopped:
+                rospy.sleep(0.1)
 
         self.stopped = True
 
-- 
2.43.0


From db453e56021be2a9cf01f2e96eeb47814a8c80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:17 +0000
Subject: [PATCH 52/54] fix: qmean of integers overflowed and of long doubles
 failed

---
 rigid_body_motion/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index bef9e90..1aca203 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -111,7 +111,8 @@ def qmean(q, axis=None, qaxis=-1):
     # TODO xarray support
     q = np.asarray(q)
     if q.dtype != quaternion:
-        q = np.swapaxes(q, qaxis, -1)
+        # products of integers might overflow
+        q = np.swapaxes(q, qaxis, -1).astype(float)
         was_quaternion = False
     else:
         q = as_float_array(q)
-- 
2.43.0


From 6f18c2de43f6b06bb08a44c64d2d25a3363ccd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:02 +0000
Subject: [PATCH 53/54] fix: transform_quaternions and from_euler_angles failed
 for arrays without elements

---
 rigid_body_motion/reference_frames.py | 4 +++-
 rigid_body_motion/utils.py            | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index b507084..6509a12 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -782,7 +782,9 @@ class ReferenceFrame(NodeMixin):
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = as_float_array(as_quat_array(r) * as_quat_array(arr))
+        arr = as_float_array(
+            np.multiply(as_quat_array(r), as_quat_array(arr))
+        )
 
         arr = self._restore_axes(arr, ndim, axis, timestamps, time_axis)
 
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1aca203..4664807 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -387,7 +387,7 @@ def from_euler_angles(
     rotors[order.index("y")] = yaw
 
     # chain rotors
-    q = quaternion(1, 0, 0, 0)
+    q = np.array(quaternion(1, 0, 0, 0))
     for r in rotors:
         if r is not None:
             q = q * r
-- 
2.43.0


From 0b52e6231042e1ceb958c1470ad7c82867ac3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:42 +0000
Subject: [PATCH 54/54] fix: transform velocities that don't overlap with the
 frames into empty arrays

---
 rigid_body_motion/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index f985b8f..b7ae9d5 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -46,7 +46,7 @@ class TransformMatcher:
     def _get_own_samples(cls, own_timestamps, timestamps):
         """Slice of own_timestamps that equals timestamps or None."""
         if not len(timestamps):
-            return None
+            return slice(0)
 
         start = np.searchsorted(own_timestamps, timestamps[0])
         samples = slice(start, start + len(timestamps))
@@ -218,6 +218,11 @@ class TransformMatcher:
             The timestamps for which the transformation is defined.
         """
         # TODO specify rf name as priority?
+        # nothing is left if the range of an array doesn't overlap with others
+        for array in self.arrays:
+            if array.timestamps is not None and len(array.timestamps) == 0:
+                return array.timestamps
+
         ts_range = self.get_range()
 
         # first and last timestamp can be None for only discrete transforms
-- 
2.43.0

