From ce6a7616b90055a2f390019d76447faa2b674fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:27 +0000
Subject: [PATCH 01/38] fix: Variable.at()/VectorVariable.at() memo ignored
 extrapolate, unmask, boundary conditions and point layout

A repeated query with other options got the answer memoized for the first one.
---
 gridded/variable.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 6e2c426..8c31ba7 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -427,7 +427,9 @@ class Variable:
         """
         Returns a SHA1 hash of the array of points passed in
         """
-        return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
+        pts_hash = hashlib.sha1(f"{points.shape}{points.dtype}".encode("utf-8"))
+        pts_hash.update(points.tobytes())
+        return (pts_hash.hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
 
     def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
         if _copy:
@@ -602,8 +604,10 @@ class Variable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
+        # anything that changes the answer has to be part of the memo key
+        memo_key = (_hash, repr((units, extrapolate, unmask, sorted(kwargs.items()))))
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -623,7 +627,7 @@ class Variable:
             value = np.ma.filled(value)
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_key)
         return value
 
     interpolate = at  # common request
@@ -1178,7 +1182,9 @@ class VectorVariable:
         """
         Returns a SHA1 hash of the array of points passed in
         """
-        return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
+        pts_hash = hashlib.sha1(f"{points.shape}{points.dtype}".encode("utf-8"))
+        pts_hash.update(points.tobytes())
+        return (pts_hash.hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
 
     def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
@@ -1268,8 +1274,10 @@ class VectorVariable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
+        # anything that changes the answer has to be part of the memo key
+        memo_key = (_hash, repr((units, extrapolate, unmask, sorted(kwargs.items()))))
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -1290,7 +1298,7 @@ class VectorVariable:
         )
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_key)
 
         return value
 
-- 
2.43.0


From efeaf15620b5d19ed59db9e067406ad67e179d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 02/38] fix: Variable.at() handed out its memoized array

The caller could write to the (always writeable) mask of the result and so
change what later queries return. Memoize and return copies, as
VectorVariable does.
---
 gridded/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 8c31ba7..92f06e8 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -431,7 +431,7 @@ class Variable:
         pts_hash.update(points.tobytes())
         return (pts_hash.hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
 
-    def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
+    def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
             result = result.copy()
         result.setflags(write=False)
@@ -442,7 +442,7 @@ class Variable:
         D[_hash] = result
         D[_hash].setflags(write=False)
 
-    def _get_memoed(self, points, time, D, _copy=False, _hash=None):
+    def _get_memoed(self, points, time, D, _copy=True, _hash=None):
         if _hash is None:
             _hash = self._get_hash(points, time)
         if D is not None and _hash in D:
-- 
2.43.0


From 44cd9aaa2203d22b7abf109254d84356ddb6958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:17 +0000
Subject: [PATCH 03/38] fix: UGrid.locate_faces() answered from the memo with
 the wrong shape or method, and reshaped the caller's array

---
 gridded/pyugrid/ugrid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 964cd28..60ea61f 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -555,7 +555,9 @@ class UGrid:
         """
         Returns a SHA1 hash of the array of points passed in
         """
-        return hashlib.sha1(points.tobytes()).hexdigest()
+        pts_hash = hashlib.sha1(f"{points.shape}{points.dtype}".encode())
+        pts_hash.update(points.tobytes())
+        return pts_hash.hexdigest()
 
     def _add_memo(self, points, item, D, _copy=False, _hash=None):
         """
@@ -610,14 +612,15 @@ class UGrid:
         """
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
-        points.shape = (-1, 2)
+        points = points.reshape(-1, 2)
 
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
+            _hash = (_hash, method)
             result = self._get_memoed(points, self._ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
+                return result[0] if just_one else result
 
         if method == "celltree":
             try:
-- 
2.43.0


From 2a61aeef5ba145e7bf683b055ec6ebd54a98e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:17 +0000
Subject: [PATCH 04/38] fix: SGrid.locate_faces()/locate_nearest() answers
 depended on earlier calls

The cell tree built for the first use_mask was used for every later one, a
memoized answer was returned whatever use_mask and with the wrong shape for
a single point, and locate_nearest() failed unless build_kdtree() had been
called before it. An explicit build_celltree() still decides for all later
calls, and now also voids what was memoized before it.
---
 gridded/pysgrid/sgrid.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 381623f..723f278 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -145,6 +145,7 @@ class SGrid:
         # used for nearest neighbor interpolation
         self._kd_trees = {}
         self._cell_tree = None
+        self._cell_trees = {}  # one for each value of use_mask
 
         self._log_ind_memo_dict = OrderedDict()
         self._cell_ind_memo_dict = OrderedDict()
@@ -513,7 +514,9 @@ class SGrid:
         """
         Returns a SHA1 hash of the array of points passed in
         """
-        return hashlib.sha1(points.tobytes()).hexdigest()
+        pts_hash = hashlib.sha1(f"{points.shape}{points.dtype}".encode())
+        pts_hash.update(points.tobytes())
+        return pts_hash.hexdigest()
 
     def _add_memo(self, points, item, D, _copy=False, _hash=None):
         """
@@ -643,16 +646,20 @@ class SGrid:
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
+            _hash = (_hash, use_mask)
             result = self._get_memoed(points, self._cell_ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
-
-        if self._cell_tree is None:
-            self.build_celltree(use_mask=use_mask)
-        tree = self._cell_tree[0]
+                return result.data[0].copy() if just_one else result
+
+        use_mask = bool(use_mask)
+        cell_trees = self._cell_trees
+        if use_mask not in cell_trees:
+            cell_trees[use_mask] = self._make_celltree(use_mask)
+        cell_tree, cell_tree_mask = cell_trees[use_mask]
+        tree = cell_tree[0]
         rev_arrs = None
-        if self._cell_tree_mask is not None:
-            rev_arrs = self._cell_tree_mask[1]
+        if cell_tree_mask is not None:
+            rev_arrs = cell_tree_mask[1]
         indices = tree.locate(points)
         if rev_arrs is not None:
             indices = rev_arrs[indices]
@@ -678,7 +685,7 @@ class SGrid:
         points = np.asarray(points, dtype=np.float64)
         points = points.reshape(-1, 2)
 
-        if self._kd_trees[grid] is None:
+        if self._kd_trees.get(grid) is None:
             self.build_kdtree(grid)
         tree = self._kd_trees[grid]
         lin_indices = np.array(tree.query(points))[1].astype(np.int32)
@@ -818,7 +825,13 @@ class SGrid:
                          arrays. Does nothing if self.node_mask or self.center_mask are not
                          present
         """
+        self._cell_tree, self._cell_tree_mask = self._make_celltree(use_mask)
+        # from now on this is the one to use, and what the previous one found is void
+        self._cell_trees = dict.fromkeys((True, False), (self._cell_tree, self._cell_tree_mask))
+        self._log_ind_memo_dict = OrderedDict()
+        self._cell_ind_memo_dict = OrderedDict()
 
+    def _make_celltree(self, use_mask):
         try:
             from cell_tree2d import CellTree
         except ImportError:
@@ -888,9 +901,9 @@ class SGrid:
                     ),
                 )
             )
-            self._cell_tree_mask = (node_mask, reversal_array)
+            cell_tree_mask = (node_mask, reversal_array)
         else:
-            self._cell_tree_mask = None
+            cell_tree_mask = None
             y_size = lon.shape[0]
             x_size = lon.shape[1]
             lin_faces = np.array(
@@ -908,7 +921,7 @@ class SGrid:
         else:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
-        self._cell_tree = (CellTree(lin_nodes, lin_faces), lin_nodes, lin_faces)
+        return (CellTree(lin_nodes, lin_faces), lin_nodes, lin_faces), cell_tree_mask
 
     def nearest_var_to_points(
         self,
-- 
2.43.0


From b1f99dc9f6246d76f09b7aa71963b8d52667e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:16 +0000
Subject: [PATCH 05/38] fix: UVar/UMVar item cache confused large index arrays
 and outlived its data

str() of a large index array leaves out its middle, so other indices got the
cached values; replacing the data did not clear the cache; and the cached
array itself was handed out.
---
 gridded/pyugrid/uvar.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index b4713ea..cec4289 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -11,6 +11,7 @@ FixMe: should we enable direct attribute acces via python's attribute access?
 
 """
 
+import pickle
 from collections import OrderedDict
 
 import numpy as np
@@ -89,10 +90,12 @@ class UVar:
     @data.setter
     def data(self, data):
         self._data = asarraylike(data)
+        self._cache.clear()
 
     @data.deleter
     def data(self):
         self._data = self._data = np.zeros((0,), dtype=np.float64)
+        self._cache.clear()
 
     @property
     def shape(self):
@@ -125,15 +128,17 @@ class UVar:
         """
         Transfers responsibility to the data's __getitem__ if not cached
         """
-        rv = None
-        if str(item) in self._cache:
-            rv = self._cache[str(item)]
-        else:
+        if isinstance(self._data, np.ndarray):
+            return self._data[item]  # already in memory, nothing to cache
+        # not str(item): that leaves out the middle of a large index array
+        key = pickle.dumps(item)
+        rv = self._cache.get(key)
+        if rv is None:
             rv = self._data.__getitem__(item)
-            self._cache[str(item)] = rv
+            self._cache[key] = rv
             if len(self._cache) > 3:
                 self._cache.popitem(last=False)
-        return rv
+        return rv.copy() if isinstance(rv, np.ndarray) else rv
 
     def __str__(self):
         print("in __str__, data is:", self.data)
@@ -188,7 +193,6 @@ class UMVar:
             setattr(self, d.name, d)
 
         self.variables = [d.name for d in data]
-        self._cache = OrderedDict()
 
     def add_var(self, var):
         if var.shape != self.shape:
@@ -199,14 +203,8 @@ class UMVar:
         setattr(self, var.name, var)
 
     def __getitem__(self, item):
-        if str(item) in self._cache:
-            return self._cache[str(item)]
-        else:
-            rv = np.ma.column_stack([self.__getattribute__(var).__getitem__(item) for var in self.variables])
-            self._cache[str(item)] = rv
-            if len(self._cache) > 3:
-                self._cache.popitem(last=False)
-            return rv
+        # the variables do their own caching, and know when their data is replaced
+        return np.ma.column_stack([self.__getattribute__(var).__getitem__(item) for var in self.variables])
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 8ea33d6110bc941d3d1b72399ea42b382e05519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:51 +0000
Subject: [PATCH 06/38] fix: SGrid published zeroed transform coefficients
 before computing them

A query interrupted (or failing) in between, or one running in another
thread, left or found coefficients of zero and interpolated with them.
---
 gridded/pysgrid/sgrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 723f278..ac4c850 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -555,8 +555,8 @@ class SGrid:
         is not expected to change over the lifetime of the object.
         """
         lon, lat = self.node_lon, self.node_lat
-        l_coeffs = self._l_coeffs = np.zeros((lon[0:-1, 0:-1].shape + (4,)), dtype=np.float64)
-        m_coeffs = self._m_coeffs = self._l_coeffs.copy("C")
+        l_coeffs = np.zeros((lon[0:-1, 0:-1].shape + (4,)), dtype=np.float64)
+        m_coeffs = l_coeffs.copy("C")
 
         indices = np.stack(np.indices(lon[0:-1, 0:-1].shape), axis=-1).reshape(-1, 2)
         polyx = self.get_variable_by_index(lon, indices)
@@ -581,8 +581,9 @@ class SGrid:
         a = np.dot(AI, polyx.T).T
         b = np.dot(AI, polyy.T).T
 
-        self._l_coeffs = np.asarray(a).reshape(l_coeffs.shape)
+        # _l_coeffs last: it being set tells other callers that both are usable
         self._m_coeffs = np.asarray(b).reshape(m_coeffs.shape)
+        self._l_coeffs = np.asarray(a).reshape(l_coeffs.shape)
 
     def get_efficient_slice(self, points=None, indices=None, location=None, _memo=False, _copy=False, _hash=None):
         """
-- 
2.43.0


From 784d0eb6a408011f18c9a4b90cf36fd60ca670f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:58 +0000
Subject: [PATCH 07/38] fix: memo lookups could fail with KeyError when another
 thread evicted the entry

---
 gridded/pysgrid/sgrid.py |  9 ++++-----
 gridded/pyugrid/ugrid.py |  9 ++++-----
 gridded/variable.py      | 17 ++++++++---------
 3 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index ac4c850..0093b75 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -533,15 +533,14 @@ class SGrid:
         if D is not None and len(D) > 6:
             D.popitem(last=False)
         D[_hash] = item
-        D[_hash].setflags(write=False)
 
     def _get_memoed(self, points, D, _copy=False, _hash=None):
         if _hash is None:
             _hash = self._hash_of_pts(points)
-        if D is not None and _hash in D:
-            return D[_hash].copy() if _copy else D[_hash]
-        else:
-            return None
+        item = D.get(_hash) if D is not None else None
+        if item is not None and _copy:
+            return item.copy()
+        return item
 
     def _compute_transform_coeffs(self):
         """
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 60ea61f..e529570 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -576,15 +576,14 @@ class UGrid:
             D[_hash] = item
             if len(D.keys()) > 6:
                 D.popitem(last=False)
-            D[_hash].setflags(write=False)
 
     def _get_memoed(self, points, D, _copy=False, _hash=None):
         if _hash is None:
             _hash = self._hash_of_pts(points)
-        if D is not None and _hash in D:
-            return D[_hash].copy() if _copy else D[_hash]
-        else:
-            return None
+        item = D.get(_hash) if D is not None else None
+        if item is not None and _copy:
+            return item.copy()
+        return item
 
     def locate_faces(self, points, method="celltree", _memo=True, _copy=False, _hash=None):
         """
diff --git a/gridded/variable.py b/gridded/variable.py
index 92f06e8..12e2b74 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -440,15 +440,14 @@ class Variable:
         if D is not None and len(D) > 4:
             D.popitem(last=False)
         D[_hash] = result
-        D[_hash].setflags(write=False)
 
     def _get_memoed(self, points, time, D, _copy=True, _hash=None):
         if _hash is None:
             _hash = self._get_hash(points, time)
-        if D is not None and _hash in D:
-            return D[_hash].copy() if _copy else D[_hash]
-        else:
-            return None
+        item = D.get(_hash) if D is not None else None
+        if item is not None and _copy:
+            return item.copy()
+        return item
 
     def center_values(self, time, units=None, extrapolate=False):
         """
@@ -1199,10 +1198,10 @@ class VectorVariable:
     def _get_memoed(self, points, time, D, _copy=True, _hash=None):
         if _hash is None:
             _hash = self._get_hash(points, time)
-        if D is not None and _hash in D:
-            return D[_hash].copy() if _copy else D[_hash]
-        else:
-            return None
+        item = D.get(_hash) if D is not None else None
+        if item is not None and _copy:
+            return item.copy()
+        return item
 
     def at(
         self,
-- 
2.43.0


From 82f9693e959d486d8ade85b2200817ac8ca1bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:54 +0000
Subject: [PATCH 08/38] fix: Time shared its array with the caller's and with
 other Time objects, and shifted it in place

Time(array) and Time(other_time) aliased the data, so that shifting one time
axis (tz_offset, displacement, origin) shifted the others and the caller's
array. A shift that failed half way (datetime overflow) left part of the
axis shifted.
---
 gridded/time.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gridded/time.py b/gridded/time.py
index 0893aec..dae2fde 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -308,7 +308,8 @@ class Time:
         if isinstance(data, self.__class__) or data.__class__ in self.__class__.__mro__:
             data = data.data
         # add check for valid datetime list?
-        self._data = np.asarray(data)
+        # always a copy: shifting this time axis must not shift the one it was made from
+        self._data = np.array(data)
 
     @property
     def info(self):
@@ -386,10 +387,8 @@ class Time:
         :type offset: float, integer hours
         """
         if self._tz_offset is not None and offset is not None:
-            # undo previous offset
-            self.data -= timedelta(hours=self._tz_offset)
-            # set new offset
-            self.data += timedelta(hours=offset)
+            # undo previous offset and set new offset -- all at once, so that it's all or nothing
+            self.data = self.data + (timedelta(hours=offset) - timedelta(hours=self._tz_offset))
 
         self._tz_offset = offset
 
@@ -407,7 +406,7 @@ class Time:
                 return
             if isinstance(displacement, (float, int)):
                 displacement = timedelta(hours=displacement)
-            self.data += displacement
+            self.data = self.data + displacement
             self._displacement = displacement
         else:
             # why not jsut make  this an init thing, then??
-- 
2.43.0


From 2396dab0fd963f125e4b36cdf2bfdc1bc1216dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:43 +0000
Subject: [PATCH 09/38] fix: constructors modified the arrays and mappings they
 were given

UGrid decremented the caller's one-based faces array and rewrote an entry of
its grid_topology, L_Depth.from_netCDF zeroed a level of the terms passed in,
and Variable added netCDF attributes to the caller's attributes mapping.
---
 gridded/depth.py         | 1 +
 gridded/pyugrid/ugrid.py | 5 ++++-
 gridded/variable.py      | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 749c4c5..ab273c5 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -183,6 +183,7 @@ class L_Depth(DepthBase):
             for term, tvar in nc_vars.items():
                 terms[term] = tvar[:]
         # 2023-02-21 set the depth of the top layer to zero
+        terms = dict(terms, depth_levels=np.array(terms["depth_levels"], subok=True))  # leave the caller's alone
         surface_index = np.argmin(terms["depth_levels"])
         terms["depth_levels"][surface_index] = 0.0
         # 2023-02-21 set the depth of the top layer to zero
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index e529570..992575d 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -139,7 +139,9 @@ class UGrid:
         self.grid_topology = grid_topology
         if self.grid_topology is not None and self.grid_topology.get("topology_dimension", None):
             # sometimes the topology dimension is an int32, which does not JSON serialize properly.
-            self.grid_topology["topology_dimension"] = int(self.grid_topology["topology_dimension"])
+            self.grid_topology = dict(
+                self.grid_topology, topology_dimension=int(self.grid_topology["topology_dimension"])
+            )
 
         # # the data associated with the grid
         # # should be a dict of UVar objects
@@ -312,6 +314,7 @@ class UGrid:
                 # faces index maximum equal to number of nodes, so we need to decrement by 1
                 # but only if the minimum is also gte 1
                 if faces_indexes.min() >= 1:
+                    faces_indexes = faces_indexes.copy()  # it may be the caller's array
                     faces_indexes[faces_indexes > 0] -= 1
                     warnings.warn("faces index maximum equal to number of nodes, automatic decrement by 1 applied")
                 else:
diff --git a/gridded/variable.py b/gridded/variable.py
index 12e2b74..a7f7b64 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -120,7 +120,7 @@ class Variable:
         self._result_memo = collections.OrderedDict()
         self.fill_value = fill_value
 
-        self.attributes = {} if attributes is None else attributes
+        self.attributes = {} if attributes is None else dict(attributes)
         # if the data is a netcdf variable, pull the attributes from there
         try:
             for attr in self.data.ncattrs():
-- 
2.43.0


From 85660f5e7c91cc40d587a792aca38ad3f51af805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:40 +0000
Subject: [PATCH 10/38] fix: memoized results and search trees outlived the
 data, times, nodes and faces they came from

Variable.at() and VectorVariable.at() kept returning results computed before
data or time was replaced or the time axis was shifted (also the ones of the
components and of a depth's zeta and bathymetry). UGrid kept its kd-tree,
cell tree and memos after nodes or faces were replaced.
---
 gridded/depth.py         |  1 +
 gridded/grids.py         |  1 +
 gridded/pysgrid/sgrid.py |  2 ++
 gridded/pyugrid/ugrid.py | 21 +++++++++++++++++----
 gridded/time.py          |  1 +
 gridded/variable.py      | 19 +++++++++++++++++--
 6 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index ab273c5..64ed088 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -33,6 +33,7 @@ class DepthBase:
         :param bottom_index: array index of 'lowest' level (closest to seafloor)
         """
         self.name = name
+        self._version = object()
         self._surface_index = surface_index
         self._bottom_index = bottom_index
         self.default_surface_boundary_condition = default_surface_boundary_condition
diff --git a/gridded/grids.py b/gridded/grids.py
index 8c36d60..c32bf6e 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -257,6 +257,7 @@ class Grid_R(GridBase):
         :param node_dimensions=None: (should only be required for netcdf)
         :param node_coordinates=None:  ``?????``
         """
+        self._version = object()
         self.node_lon = node_lon
         self.node_lat = node_lat
         self.grid_topology = grid_topology
diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 0093b75..f129d13 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -150,6 +150,7 @@ class SGrid:
         self._log_ind_memo_dict = OrderedDict()
         self._cell_ind_memo_dict = OrderedDict()
         self._cell_tree_mask = None
+        self._version = object()
         self.grid_topology = grid_topology
         self.masked_interpolant_behavior = masked_interpolant_behavior
         super().__init__(*args, **kwargs)
@@ -830,6 +831,7 @@ class SGrid:
         self._cell_trees = dict.fromkeys((True, False), (self._cell_tree, self._cell_tree_mask))
         self._log_ind_memo_dict = OrderedDict()
         self._cell_ind_memo_dict = OrderedDict()
+        self._version = object()  # tells Variables that what they have memoized is void
 
     def _make_celltree(self, use_mask):
         try:
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 992575d..4a25f50 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -285,6 +285,7 @@ class UGrid:
             self.nodes = np.zeros((0, 2), dtype=NODE_DT)
         else:
             self._nodes = np.asanyarray(nodes_coords, dtype=NODE_DT)
+        self._clear_caches()
 
     @nodes.deleter
     def nodes(self):
@@ -293,6 +294,17 @@ class UGrid:
         self._edges = None
         self._faces = None
         self._boundaries = None
+        self._clear_caches()
+
+    def _clear_caches(self):
+        """
+        Drop whatever was computed from the nodes and faces: they have changed
+        """
+        self._kdtree = None
+        self._cell_tree = None
+        self._ind_memo_dict = OrderedDict()
+        self._alpha_memo_dict = OrderedDict()
+        self._version = object()  # tells Variables that what they have memoized is void
 
     @property
     def faces(self):
@@ -328,17 +340,18 @@ class UGrid:
 
         else:
             self._faces = None
-            # Other things are no longer valid.
-            self._face_face_connectivity = None
-            self._face_edge_connectivity = None
+        # Other things are no longer valid.
+        self._face_face_connectivity = None
+        self._face_edge_connectivity = None
+        self._clear_caches()
 
     @faces.deleter
     def faces(self):
-        self._faces = None
         self._faces = None
         # Other things are no longer valid.
         self._face_face_connectivity = None
         self._face_edge_connectivity = None
+        self._clear_caches()
         self.edge_coordinates = None
 
     @property
diff --git a/gridded/time.py b/gridded/time.py
index dae2fde..c2cbab6 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -310,6 +310,7 @@ class Time:
         # add check for valid datetime list?
         # always a copy: shifting this time axis must not shift the one it was made from
         self._data = np.array(data)
+        self._version = object()  # tells Variables that what they have memoized is void
 
     @property
     def info(self):
diff --git a/gridded/variable.py b/gridded/variable.py
index a7f7b64..c3f16fd 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -391,6 +391,7 @@ class Variable:
                     f"Grid shape is {self.grid.node_lon.shape}"
                 )
         self._data = d
+        self._version = object()  # see _memo_state
 
     @property
     def units(self):
@@ -431,6 +432,20 @@ class Variable:
         pts_hash.update(points.tobytes())
         return (pts_hash.hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
 
+    def _memo_state(self):
+        """
+        Identifies what the results depend on. Part of the memo key, so that a result
+        computed from other data, times, etc. is not found any more.
+        """
+        state = [getattr(obj, "_version", id(obj)) for obj in (self, self.time, self.grid, self.depth)]
+        state.append(repr((self.location, self.fill_value, getattr(self, "_order", None))))
+        state.append((self.surface_boundary_condition, self.bottom_boundary_condition))
+        for name in ("zeta", "bathymetry"):
+            var = getattr(self.depth, name, None)
+            if isinstance(var, Variable):
+                state.append(var._memo_state())
+        return tuple(state)
+
     def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
             result = result.copy()
@@ -604,7 +619,7 @@ class Variable:
             _hash = self._get_hash(pts, time)
 
         # anything that changes the answer has to be part of the memo key
-        memo_key = (_hash, repr((units, extrapolate, unmask, sorted(kwargs.items()))))
+        memo_key = (_hash, repr((units, extrapolate, unmask, sorted(kwargs.items()))), self._memo_state())
         if _mem:
             res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
@@ -1274,7 +1289,7 @@ class VectorVariable:
             _hash = self._get_hash(pts, time)
 
         # anything that changes the answer has to be part of the memo key
-        memo_key = (_hash, repr((units, extrapolate, unmask, sorted(kwargs.items()))))
+        memo_key = (_hash, repr((units, extrapolate, unmask, sorted(kwargs.items()))), tuple(v._memo_state() for v in self.variables))
         if _mem:
             res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
-- 
2.43.0


From a524834b8f497bd8c6f88581b88fca21d2ce75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:47 +0000
Subject: [PATCH 11/38] fix: setting VectorVariable.time failed for lists
 (collections.Iterable) and changed some components before a failure

---
 gridded/variable.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index c3f16fd..0b709c9 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1139,20 +1139,23 @@ class VectorVariable:
     @time.setter
     def time(self, t):
         Time_class = self.__class__._default_component_types["time"]
+        if not isinstance(t, Time_class):
+            if not (isinstance(t, collections.abc.Iterable) or isinstance(t, nc4.Variable)):
+                raise ValueError("Time must be set with an iterable container or netCDF variable")
+            t = Time_class(t)
         if self.variables is not None:
+            previous = [v.time for v in self.variables]
             for v in self.variables:
                 try:
                     v.time = t
                 except ValueError as e:
+                    # all or none
+                    for var, old in zip(self.variables, previous):
+                        var._time = old
                     raise ValueError(f"""Time was not compatible with variables.
                     Set variables attribute to None to allow changing other attributes
                     Original error: {str(e)}""")
-        if isinstance(t, Time_class):
-            self._time = t
-        elif isinstance(t, collections.Iterable) or isinstance(t, nc4.Variable):
-            self._time = Time_class(t)
-        else:
-            raise ValueError("Time must be set with an iterable container or netCDF variable")
+        self._time = t
 
     @property
     def units(self):
-- 
2.43.0


From 4190557db60cfdce85e7cef92cd2eef8fefbd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:11 +0000
Subject: [PATCH 12/38] fix: data of a Variable with a single time could not be
 replaced

The constructor and the time setter accept data without a time dimension for
a time axis of length one, the data setter rejected it.
---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 0b709c9..8eb7649 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -379,7 +379,7 @@ class Variable:
     def data(self, d):
         d = asarraylike(d)
         # Fixme: maybe all this checking should be done when it gets added to the Dataset??
-        if self.time is not None and len(d) != len(self.time):
+        if self.time is not None and len(d) != len(self.time) and len(self.time) > 1:
             raise ValueError("Data/time interval mismatch")
         ## fixme: we should check Depth, too.
         if self.grid is not None:  # if there is not a grid, we can't check this
-- 
2.43.0


From dcdb7b4b2445fb9f41697722442ac54b063d5d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:18 +0000
Subject: [PATCH 13/38] fix: depth dimension of static data taken for time

A Variable with data of (depth, lat, lon) and a single-time Time (what
from_netCDF makes for a variable without time) had its levels treated as
times: every depth got the top or bottom level.
---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 8eb7649..30d2dba 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -521,7 +521,7 @@ class Variable:
             if diff == 0:
                 return order
             elif diff == 1:
-                if self.time is not None:
+                if self.time is not None and (self.depth is None or len(self.time) == self.data.shape[0]):
                     del order[1]
                 elif self.depth is not None:
                     del order[0]
-- 
2.43.0


From 5ec0aefbc200f8017a1bb12c434ea02019609aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:03 +0000
Subject: [PATCH 14/38] fix: bare excepts in SGrid swallowed interrupts and
 read errors

An interrupt or a failed read while the edge1 coordinates were looked up was
taken for 'there are none'.
---
 gridded/pysgrid/sgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index f129d13..0ae07e3 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -396,7 +396,7 @@ class SGrid:
         shape = None
         try:
             shape = np.array(variable.shape)
-        except:
+        except AttributeError:
             return None  # Variable has no shape attribute!
         if len(variable.shape) < 2:
             return None
@@ -1463,7 +1463,7 @@ class SGridAttributes:
     def get_cell_edge1_lat_lon(self):
         try:
             edge1_lon_var, edge1_lat_var = self.get_attr_coordinates("edge1_coordinates")
-        except:
+        except (TypeError, ValueError):
             edge1_lon, edge1_lat = None, None
         else:
             edge1_lon = self.nc[edge1_lon_var][:]
-- 
2.43.0


From 7529118b13f1b784b55e1da3dd22aad687422466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:10 +0000
Subject: [PATCH 15/38] fix: SGridVariable item cache confused large index
 arrays and handed out its arrays

---
 gridded/pysgrid/variables.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 202793e..90d9426 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -4,6 +4,7 @@ Created on Apr 15, 2015
 @author: ayan
 """
 
+import pickle
 from collections import OrderedDict
 
 import numpy as np
@@ -170,15 +171,15 @@ class SGridVariable:
 
         if not hasattr(self, "_cache"):
             self._cache = OrderedDict()
-        rv = None
-        if str(item) in self._cache:
-            rv = self._cache[str(item)]
-        else:
+        # not str(item): that leaves out the middle of a large index array
+        key = pickle.dumps(item)
+        rv = self._cache.get(key)
+        if rv is None:
             rv = self._data.__getitem__(item)
-            self._cache[str(item)] = rv
+            self._cache[key] = rv
             if len(self._cache) > 3:
                 self._cache.popitem(last=False)
-        return rv
+        return rv.copy() if isinstance(rv, np.ndarray) else rv
 
     def __str__(self):
         return f"SGridVariable object: {self.standard_name:s}, on the {self.location:s}s"
-- 
2.43.0


From 31023c2bc17d3203a6153994f7c4bcfb74cdaf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:17 +0000
Subject: [PATCH 16/38] fix: eviction from a memo could fail with KeyError when
 other threads had emptied it

---
 gridded/pysgrid/sgrid.py |  5 ++++-
 gridded/pyugrid/ugrid.py |  5 ++++-
 gridded/variable.py      | 10 ++++++++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 0ae07e3..6b53e30 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -532,7 +532,10 @@ class SGrid:
         if _hash is None:
             _hash = self._hash_of_pts(points)
         if D is not None and len(D) > 6:
-            D.popitem(last=False)
+            try:
+                D.popitem(last=False)
+            except KeyError:  # already emptied by other threads
+                pass
         D[_hash] = item
 
     def _get_memoed(self, points, D, _copy=False, _hash=None):
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 4a25f50..e5f6d73 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -591,7 +591,10 @@ class UGrid:
         if D is not None:
             D[_hash] = item
             if len(D.keys()) > 6:
-                D.popitem(last=False)
+                try:
+                    D.popitem(last=False)
+                except KeyError:  # already emptied by other threads
+                    pass
 
     def _get_memoed(self, points, D, _copy=False, _hash=None):
         if _hash is None:
diff --git a/gridded/variable.py b/gridded/variable.py
index 30d2dba..0b3b780 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -453,7 +453,10 @@ class Variable:
         if _hash is None:
             _hash = self._get_hash(points, time)
         if D is not None and len(D) > 4:
-            D.popitem(last=False)
+            try:
+                D.popitem(last=False)
+            except KeyError:  # already emptied by other threads
+                pass
         D[_hash] = result
 
     def _get_memoed(self, points, time, D, _copy=True, _hash=None):
@@ -1210,7 +1213,10 @@ class VectorVariable:
         if _hash is None:
             _hash = self._get_hash(points, time)
         if D is not None and len(D) > 8:
-            D.popitem(last=False)
+            try:
+                D.popitem(last=False)
+            except KeyError:  # already emptied by other threads
+                pass
         D[_hash] = result
 
     def _get_memoed(self, points, time, D, _copy=True, _hash=None):
-- 
2.43.0


From 3a7e9a776bd6607d1cff7831b1329c8fbe926a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:25 +0000
Subject: [PATCH 17/38] fix: masks of memoized grid results could be changed by
 the caller

---
 gridded/pysgrid/sgrid.py | 4 ++--
 gridded/pyugrid/ugrid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 6b53e30..a2200c0 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -526,7 +526,7 @@ class SGrid:
         :param D: Dict that will store hash -> item mapping.
         :param _hash: If hash is already computed it may be passed in here.
         """
-        if _copy:
+        if _copy or isinstance(item, np.ma.MaskedArray):  # write=False does not protect the mask
             item = item.copy()
         item.setflags(write=False)
         if _hash is None:
@@ -542,7 +542,7 @@ class SGrid:
         if _hash is None:
             _hash = self._hash_of_pts(points)
         item = D.get(_hash) if D is not None else None
-        if item is not None and _copy:
+        if item is not None and (_copy or isinstance(item, np.ma.MaskedArray)):
             return item.copy()
         return item
 
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index e5f6d73..d1bb6a6 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -583,7 +583,7 @@ class UGrid:
         :param D: Dict that will store hash -> item mapping.
         :param _hash: If hash is already computed it may be passed in here.
         """
-        if _copy:
+        if _copy or isinstance(item, np.ma.MaskedArray):  # write=False does not protect the mask
             item = item.copy()
         item.setflags(write=False)
         if _hash is None:
@@ -600,7 +600,7 @@ class UGrid:
         if _hash is None:
             _hash = self._hash_of_pts(points)
         item = D.get(_hash) if D is not None else None
-        if item is not None and _copy:
+        if item is not None and (_copy or isinstance(item, np.ma.MaskedArray)):
             return item.copy()
         return item
 
-- 
2.43.0


From 854d362275c0aecbfc22d9fba01fe74961bb037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 18/38] fix: saved boundary coordinates were not found again on
 loading

---
 gridded/pyugrid/ugrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index d1bb6a6..9c3d2e7 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1076,6 +1076,10 @@ class UGrid:
             mesh.face_face_connectivity = mesh_name + "_face_links"
         if self._boundaries is not None:
             mesh.boundary_node_connectivity = mesh_name + "_boundary_nodes"
+            if self.boundary_coordinates is not None:
+                # Optional attribute (requires boundary_node_connectivity).
+                coord = "{0}_boundary_lon {0}_boundary_lat".format
+                mesh.boundary_coordinates = coord(mesh_name)
 
         # FIXME: This could be re-factored to be more generic, rather than
         # separate for each type of data see the coordinates example below.
-- 
2.43.0


From e6e207d8542d15b30094aea743cc54ad8a64b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 19/38] fix: saving wrote variables under another name than
 their key and without their units

---
 gridded/pyugrid/ugrid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 9c3d2e7..4ca5ba4 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1204,11 +1204,11 @@ class UGrid:
             else:
                 raise ValueError(f"I don't know how to save a variable located on: {var.location}")
             print("Saving:", var)
-            print("name is:", var.name)
+            print("name is:", name)
             print("var data is:", var.data)
             print("var data shape is:", var.data.shape)
             data_var = nclocal.createVariable(
-                var.name,
+                name,
                 var.data.dtype,
                 shape,
                 chunksizes=chunksizes,
@@ -1222,6 +1222,11 @@ class UGrid:
             data_var.mesh = mesh_name
             if coordinates is not None:
                 data_var.coordinates = coordinates
+            if var.name and var.name != name:
+                data_var.long_name = var.name
+            if var.units is not None:
+                data_var.units = var.units
             # Add the extra attributes.
             for att_name, att_value in var.attributes.items():
-                setattr(data_var, att_name, att_value)
+                if not (att_name == "units" and var.units is not None):
+                    data_var.setncattr(att_name, att_value)
-- 
2.43.0


From e5251c77868222592b3d24ee0486b74085e14039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 20/38] fix: saving variables with _FillValue failed and packed
 variables lost their values

---
 gridded/pyugrid/ugrid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 4ca5ba4..aadd3c4 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1212,11 +1212,11 @@ class UGrid:
                 var.data.dtype,
                 shape,
                 chunksizes=chunksizes,
+                fill_value=var.attributes.get("_FillValue"),
                 # zlib=False,
                 # complevel=0,
             )
             print("new dat var shape:", shape)
-            data_var[:] = var.data[:]
             # Add the standard attributes:
             data_var.location = var.location
             data_var.mesh = mesh_name
@@ -1228,5 +1228,9 @@ class UGrid:
                 data_var.units = var.units
             # Add the extra attributes.
             for att_name, att_value in var.attributes.items():
-                if not (att_name == "units" and var.units is not None):
-                    data_var.setncattr(att_name, att_value)
+                if att_name == "_FillValue" or (att_name == "units" and var.units is not None):
+                    continue
+                data_var.setncattr(att_name, att_value)
+            # The data goes last: the attributes can tell how it is stored
+            # (scale_factor, add_offset).
+            data_var[:] = var.data[:]
-- 
2.43.0


From 64f531fc66c19a9c13c00034973baae9d902aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 21/38] fix: connectivity arrays with 3 faces, 2 edges or 2
 boundaries came back transposed

---
 gridded/pyugrid/read_netcdf.py | 12 +++++++++---
 gridded/pyugrid/ugrid.py       |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 27dbe0c..df8c55c 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -213,9 +213,15 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
             except AttributeError:  # This connectivity array isn't there.
                 continue
             array = var[:, :]
-            # Fortran order, instead of C order, transpose the array
-            # logic below will fail for 3 node or two edge grids.
-            if array.shape[0] == defs["num_ind"]:
+            # Fortran order, instead of C order, transpose the array.
+            # The mesh can say which dimension it is (face_dimension,
+            # edge_dimension), otherwise go by the shape.
+            dimension = getattr(mesh_var, defs["role"].split("_")[0] + "_dimension", None)
+            if dimension in var.dimensions:
+                transposed = var.dimensions[0] != dimension
+            else:
+                transposed = array.shape[0] == defs["num_ind"] != array.shape[1]
+            if transposed:
                 array = array.T
             try:
                 start_index = int(var.start_index)
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index aadd3c4..0acbe06 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1058,12 +1058,14 @@ class UGrid:
         if self._edges is not None:
             # Attribute required if variables will be defined on edges.
             mesh.edge_node_connectivity = mesh_name + "_edge_nodes"
+            mesh.edge_dimension = mesh_name + "_num_edge"
             if self.edge_coordinates is not None:
                 # Optional attribute (requires edge_node_connectivity).
                 coord = "{0}_edge_lon {0}_edge_lat".format
                 mesh.edge_coordinates = coord(mesh_name)
         if self._faces is not None:
             mesh.face_node_connectivity = mesh_name + "_face_nodes"
+            mesh.face_dimension = mesh_name + "_num_face"
             if self.face_coordinates is not None:
                 # Optional attribute.
                 coord = "{0}_face_lon {0}_face_lat".format
-- 
2.43.0


From 2ffcc9b65bd310a3604bb269175aec3204391242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 22/38] fix: variables named by a word of the mesh's long_name
 were dropped on loading

---
 gridded/gridded.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a7735a1..c9847a1 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -153,7 +153,10 @@ class Dataset:
         variables = {}
         for k in ds.variables.keys():
             # find which netcdf variables are used to define the grid
-            is_not_grid_attr = all([k not in str(v).split() for v in self.grid.grid_topology.values()])
+            # (the long_name of the topology variable is prose, not names of variables)
+            is_not_grid_attr = all(
+                [k not in str(v).split() for role, v in self.grid.grid_topology.items() if role != "long_name"]
+            )
             if is_not_grid_attr:
                 ncvar = ds[k]
                 # find the location of the variable
-- 
2.43.0


From 8e45b841d96ea958b98a39f89fc3e09ac6198fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 23/38] fix: Dataset.save() lost the global attributes and left
 the file open on failure

---
 gridded/gridded.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index c9847a1..8e84de3 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -220,10 +220,12 @@ class Dataset:
         # create an ncdataset
         ncds = get_writable_dataset(filename)
 
-        # Save the grid and variables
-        self.grid.save(ncds, format="netcdf4", variables=self.variables)
-
-        ncds.close()
+        try:
+            ncds.setncatts(self.attributes)
+            # Save the grid and variables
+            self.grid.save(ncds, format="netcdf4", variables=self.variables)
+        finally:
+            ncds.close()
 
     def get_variables_by_attribute(self, attr, value):
         """
-- 
2.43.0


From 4a1dc7b59a0483ef7debd4dd11a12ce4cab79d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 24/38] fix: load_verdat() accepted a file cut off inside its
 list of points

---
 gridded/io/verdat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index e215f17..e192161 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -42,6 +42,8 @@ def load_verdat(filename):
             lons.append(lon)
             lats.append(lat)
             depths.append(depth)
+        else:
+            raise ValueError("the list of points is not complete (there is no line with all zeros after it)")
         # read the boundaries:
         line = infile.readline().strip()
         try:
-- 
2.43.0


From 5bbc8a88b9876d0447290039fe3ca4737d78cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 25/38] fix: order_boundary_segments() failed for segments that
 start where the boundary starts

---
 gridded/io/verdat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index e192161..0e3e018 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -177,7 +177,7 @@ def order_boundary_segments(bound_segs):
                     bound.append(p0)
                     bound_segs.pop(i)
                 elif p0 == bound[0]:
-                    bound.insert(p1)
+                    bound.insert(0, p1)
                     bound_segs.pop(i)
                 elif p1 == bound[0]:
                     bound.insert(0, p0)
-- 
2.43.0


From fa088d0f08a17cb805c828a6540b70fb333c8e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:27 +0000
Subject: [PATCH 26/38] fix: edge coordinates and masks of a saved SGrid were
 left empty

---
 gridded/pysgrid/sgrid.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index a2200c0..2888e88 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -458,6 +458,17 @@ class SGrid:
             grid_angle = nc_file.createVariable(angle_obj.variable, angle_obj.dtype, angle_obj.dimensions)
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
+        # The other variables that make up the grid: edge coordinates and masks
+        grid_data = {}
+        for names, arrays in (
+            (self.edge1_coordinates, (self.edge1_lon, self.edge1_lat)),
+            (self.edge2_coordinates, (self.edge2_lon, self.edge2_lat)),
+        ):
+            if names is not None:
+                grid_data.update((name, arr) for name, arr in zip(names, arrays) if arr is not None)
+        for mask in (self.node_mask, self.center_mask, self.edge1_mask, self.edge2_mask):
+            if hasattr(mask, "ncattrs"):
+                grid_data[mask.name] = mask
         for dataset_variable in self.variables:
             dataset_var_obj = getattr(self, dataset_variable)
             try:
@@ -485,6 +496,12 @@ class SGrid:
                     axes.append(z_axis)
                 if axes:
                     dataset_grid_var.axes = " ".join(axes)
+                if dataset_variable in grid_data:
+                    arr = grid_data[dataset_variable]
+                    if hasattr(arr, "ncattrs"):
+                        # the attributes of a mask tell what its values mean
+                        dataset_grid_var.setncatts({k: arr.getncattr(k) for k in arr.ncattrs() if k != "_FillValue"})
+                    dataset_grid_var[:] = arr[:]
         return grid_vars
 
     def _get_geo_mask(self, name):
-- 
2.43.0


From 7f58f80eac2946deebf35f7fe980c6a7923edf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:34 +0000
Subject: [PATCH 27/38] fix: SGrid.save_as_netcdf() took any failure to create
 a variable for one that is already there

---
 gridded/pysgrid/sgrid.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 2888e88..e50ca88 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -471,13 +471,12 @@ class SGrid:
                 grid_data[mask.name] = mask
         for dataset_variable in self.variables:
             dataset_var_obj = getattr(self, dataset_variable)
-            try:
+            if dataset_var_obj.variable in nc_file.variables:
+                continue  # written above
+            else:
                 dataset_grid_var = nc_file.createVariable(
                     dataset_var_obj.variable, dataset_var_obj.dtype, dataset_var_obj.dimensions
                 )
-            except RuntimeError:
-                continue
-            else:
                 axes = []
                 if dataset_var_obj.grid is not None:
                     dataset_grid_var.grid = grid_var
-- 
2.43.0


From 0cef4313d6861d91279fbd4e8ff4067637c478c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:29 +0000
Subject: [PATCH 28/38] fix: SGrid without vertical dimensions could not be
 loaded

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index e50ca88..00fc5ed 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -271,7 +271,7 @@ class SGrid:
 
     def all_padding(self):
         all_padding = self.get_all_face_padding() + self.get_all_edge_padding()
-        if self.vertical_padding is not None:
+        if self._vertical_padding is not None:
             all_padding += self._vertical_padding
         return all_padding
 
-- 
2.43.0


From de58127cc38cb70d13cc59e897a751e37512d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:17 +0000
Subject: [PATCH 29/38] fix: UGrid.save_as_netcdf() left the file open until
 garbage collection, as did a failed UGrid.save()

---
 gridded/pyugrid/ugrid.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 0acbe06..9d186db 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1008,7 +1008,9 @@ class UGrid:
         :param format: format to save -- 'netcdf3' or 'netcdf4'
                        are the only options at this point.
         """
-        self.save(filename, format="netcdf4")
+        nclocal = self.save(filename, format="netcdf4")
+        if nclocal is not filename:  # it was opened for this
+            nclocal.close()
 
     def save(self, filepath, format="netcdf4", variables={}):
         """
@@ -1030,9 +1032,22 @@ class UGrid:
         if format not in format_options:
             raise ValueError(f"format: {format} not supported. Options are: {format_options}")
 
-        mesh_name = self.mesh_name
-
         nclocal = get_writable_dataset(filepath)
+        try:
+            self._save_grid(nclocal)
+            self._save_variables(nclocal, variables)
+            nclocal.sync()
+        except BaseException:
+            if nclocal is not filepath:  # it was opened here
+                nclocal.close()
+            raise
+        return nclocal
+
+    def _save_grid(self, nclocal):
+        """
+        Save the grid itself
+        """
+        mesh_name = self.mesh_name
 
         nclocal.createDimension(mesh_name + "_num_node", len(self.nodes))
         if self._edges is not None:
@@ -1172,11 +1187,6 @@ class UGrid:
         node_lat.long_name = "Latitude of 2D mesh nodes."
         node_lat.units = "degrees_north"
 
-        self._save_variables(nclocal, variables)
-
-        nclocal.sync()
-        return nclocal
-
     def _save_variables(self, nclocal, variables):
         """
         Save the Variables
-- 
2.43.0


From 710e3c9bf2de953a98c4c535b9562581a6b88d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:06 +0000
Subject: [PATCH 30/38] fix: a failing read of grid_type was taken for a
 missing attribute, and the grid loaded as another type

---
 gridded/grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index c32bf6e..3872949 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -604,7 +604,8 @@ class Grid:
                 return Grid_S
         else:
             # no topology, so search dataset for grid_type variable
-            if hasattr(dataset, "grid_type") and dataset.grid_type in sgrid_names + ugrid_names:
+            # (hasattr() would take a failing read for a missing attribute)
+            if "grid_type" in dataset.ncattrs() and dataset.grid_type in sgrid_names + ugrid_names:
                 if dataset.grid_type.lower() in ugrid_names:
                     return Grid_U
                 elif dataset.grid_type.lower() in rgrid_names:
-- 
2.43.0


From c66020c20946318525c18e49e9bb6c11cadc5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 31/38] fix: depth of static data was not loaded when a time
 axis was given, and its levels were taken for times

---
 gridded/variable.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 0b3b780..dbafd00 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -259,7 +259,10 @@ class Variable:
                     displacement=displacement,
                 )
         else:
-            timevarname = 1 if len(time) > 1 else 0
+            # the data may have no time dimension although a time axis was given
+            timevarname = Time.locate_time_var_from_var(data)
+            if timevarname is None and data.shape[0] == len(time):
+                timevarname = data.dimensions[0]
 
         if depth is None:
             istimevar = 0 if timevarname is None else 1
@@ -1009,7 +1012,10 @@ class VectorVariable:
                     displacement=displacement,
                 )
         else:
-            timevarname = 1 if len(time) > 1 else 0
+            # the data may have no time dimension although a time axis was given
+            timevarname = Time.locate_time_var_from_var(data)
+            if timevarname is None and data.shape[0] == len(time):
+                timevarname = data.dimensions[0]
 
         if depth is None:
             istimevar = 0 if timevarname is None else 1
-- 
2.43.0


From 62461187de47b8a9a291f9587ae6ec1607f480b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 32/38] fix: points at or below the last depth level got
 UnboundLocalError or the values of other points

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index dbafd00..5e39aaf 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -780,12 +780,12 @@ class Variable:
         else:
             #data is on cell edge, or on nodes, so we need to interpolate between the two levels.
             for idx in uniq_idx:
+                lay_idxs = np.where(d_indices == idx)[0]
                 if idx == self.data.shape[dim_idx] - 1:
                     # special case, index == depth dim length, so only v0 is valid
                     v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                     values.put(lay_idxs, v0)
                     continue
-                lay_idxs = np.where(d_indices == idx)[0]
                 v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                 sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
-- 
2.43.0


From deeeee5a9cdc239bab2d7c6b0dd78570153520b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 33/38] fix: with depth, all points of data on cell centers got
 the value of the first point

---
 gridded/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 5e39aaf..2c45edf 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -677,7 +677,8 @@ class Variable:
             slices=slices,
             _memo=True,
         )
-        return value
+        # some grids give a column: it would broadcast against the depth alphas
+        return value.reshape(-1)
 
     def _time_interp(self, points, time, extrapolate, slices=(), **kwargs):
         """
-- 
2.43.0


From b8ffa3690b0f1802803e9cc5a0a4ac0d5080041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:44 +0000
Subject: [PATCH 34/38] fix: a vector whose first component is static took its
 time axis from the wall clock

---
 gridded/variable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 2c45edf..9b18df4 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -999,13 +999,16 @@ class VectorVariable:
 
         if time is None:
             timevarname = Time.locate_time_var_from_var(data)
-            if timevarname is None:
+            # the first component may be the one that does not change in time
+            located = [Time.locate_time_var_from_var(ds[vn]) for vn in varnames if vn is not None]
+            located = [vn for vn in located if vn is not None]
+            if not located:
                 time = Time()
             else:
                 time = Time.from_netCDF(
                     filename=data_file,
                     dataset=ds,
-                    varname=timevarname,
+                    varname=located[0],
                     # datavar=None,
                     tz_offset=tz_offset,
                     new_tz_offset=None,
-- 
2.43.0


From bc82b00a1342a9df864ff71c5d891424dd067dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:44 +0000
Subject: [PATCH 35/38] fix: caches stayed larger by one entry after every
 interrupted insertion

---
 gridded/pysgrid/sgrid.py     | 2 +-
 gridded/pysgrid/variables.py | 2 +-
 gridded/pyugrid/ugrid.py     | 2 +-
 gridded/pyugrid/uvar.py      | 2 +-
 gridded/variable.py          | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 00fc5ed..a99db54 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -547,7 +547,7 @@ class SGrid:
         item.setflags(write=False)
         if _hash is None:
             _hash = self._hash_of_pts(points)
-        if D is not None and len(D) > 6:
+        while D is not None and len(D) > 6:
             try:
                 D.popitem(last=False)
             except KeyError:  # already emptied by other threads
diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 90d9426..391fdcb 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -177,7 +177,7 @@ class SGridVariable:
         if rv is None:
             rv = self._data.__getitem__(item)
             self._cache[key] = rv
-            if len(self._cache) > 3:
+            while len(self._cache) > 3:
                 self._cache.popitem(last=False)
         return rv.copy() if isinstance(rv, np.ndarray) else rv
 
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 9d186db..bbe8322 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -590,7 +590,7 @@ class UGrid:
             _hash = self._hash_of_pts(points)
         if D is not None:
             D[_hash] = item
-            if len(D.keys()) > 6:
+            while len(D.keys()) > 6:
                 try:
                     D.popitem(last=False)
                 except KeyError:  # already emptied by other threads
diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index cec4289..1cc9798 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -136,7 +136,7 @@ class UVar:
         if rv is None:
             rv = self._data.__getitem__(item)
             self._cache[key] = rv
-            if len(self._cache) > 3:
+            while len(self._cache) > 3:
                 self._cache.popitem(last=False)
         return rv.copy() if isinstance(rv, np.ndarray) else rv
 
diff --git a/gridded/variable.py b/gridded/variable.py
index 9b18df4..7d16646 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -455,7 +455,7 @@ class Variable:
         result.setflags(write=False)
         if _hash is None:
             _hash = self._get_hash(points, time)
-        if D is not None and len(D) > 4:
+        while D is not None and len(D) > 4:
             try:
                 D.popitem(last=False)
             except KeyError:  # already emptied by other threads
@@ -1222,7 +1222,7 @@ class VectorVariable:
         result.setflags(write=False)
         if _hash is None:
             _hash = self._get_hash(points, time)
-        if D is not None and len(D) > 8:
+        while D is not None and len(D) > 8:
             try:
                 D.popitem(last=False)
             except KeyError:  # already emptied by other threads
-- 
2.43.0


From 652207be140f729ee5af7fef27e011386a30acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:36 +0000
Subject: [PATCH 36/38] fix: results outlived the coordinates of a regular grid
 and the levels or terms of a depth

---
 gridded/depth.py | 6 +++++-
 gridded/grids.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 64ed088..c687858 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -33,12 +33,16 @@ class DepthBase:
         :param bottom_index: array index of 'lowest' level (closest to seafloor)
         """
         self.name = name
-        self._version = object()
         self._surface_index = surface_index
         self._bottom_index = bottom_index
         self.default_surface_boundary_condition = default_surface_boundary_condition
         self.default_bottom_boundary_condition = default_bottom_boundary_conditon
 
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        # tells Variables that what they have memoized is void
+        super().__setattr__("_version", object())
+
     @classmethod
     def _can_create_from_netCDF(
         cls,
diff --git a/gridded/grids.py b/gridded/grids.py
index 3872949..2bba31b 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -257,7 +257,6 @@ class Grid_R(GridBase):
         :param node_dimensions=None: (should only be required for netcdf)
         :param node_coordinates=None:  ``?????``
         """
-        self._version = object()
         self.node_lon = node_lon
         self.node_lat = node_lat
         self.grid_topology = grid_topology
@@ -270,6 +269,11 @@ class Grid_R(GridBase):
 
         super().__init__(*args, **kwargs)
 
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        # tells Variables that what they have memoized is void
+        super().__setattr__("_version", object())
+
     @classmethod
     def _find_required_grid_attrs(cls, filename, dataset=None, grid_topology=None):
 
-- 
2.43.0


From 48bbf0624b75a98ebed685fbb9148af84347742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:59 +0000
Subject: [PATCH 37/38] fix: the free surface keeps its own times below a
 variable that does not change in time

---
 gridded/depth.py    | 14 ++++++++++++--
 gridded/variable.py | 22 ++++++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index c687858..1c37749 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -541,14 +541,24 @@ class S_Depth(DepthBase):
                 warnings.warn(warn)
                 zeta = Zeta.constant(0)
             else:
+                zeta_time = time
+                if Time.locate_time_var_from_var(zeta_var) is not None and zeta_var.shape[0] != len(time.data):
+                    # the time of the variable at hand (one that does not change, say) is not that of zeta
+                    zeta_time = Time.from_netCDF(
+                        dataset=zeta_var._grp,
+                        datavar=zeta_var,
+                        origin=time_origin,
+                        displacement=displacement,
+                        tz_offset=tz_offset,
+                    )
                 if 'node' in grid.infer_location(bathy_var):
-                    zeta = Zeta(data=zeta_var, grid=grid, time=time, name="zeta")
+                    zeta = Zeta(data=zeta_var, grid=grid, time=zeta_time, name="zeta")
                 else:
                     #zeta data is on cell centers, but needs to be averaged to the nodes in order
                     #to properly define the terrain following coordinate.
                     z = (zeta_var[:,0:-1,:] + zeta_var[:,1:,:]) / 2
                     psi_z = (z[:,:,0:-1] + z[:,:,1:]) /2
-                    zeta = Zeta(data=psi_z, grid=grid, time=time, name="zeta")
+                    zeta = Zeta(data=psi_z, grid=grid, time=zeta_time, name="zeta")
 
         if terms is None:
             terms = {}
diff --git a/gridded/variable.py b/gridded/variable.py
index 7d16646..c18518d 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -273,7 +273,16 @@ class Variable:
                 or isinstance(grid, Grid_U)
                 and len(data.shape) == 2 + istimevar
             ):
-                depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=time, grid=grid, **kwargs)
+                depth = Depth.from_netCDF(
+                    grid_file=dg,
+                    dataset=ds,
+                    time=time,
+                    tz_offset=tz_offset,
+                    time_origin=time_origin,
+                    displacement=displacement,
+                    grid=grid,
+                    **kwargs,
+                )
         if location is None:
             if hasattr(data, "location"):
                 location = data.location
@@ -1030,7 +1039,16 @@ class VectorVariable:
                 or isinstance(grid, Grid_U)
                 and len(data.shape) == 2 + istimevar
             ):
-                depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=time, grid=grid, **kwargs)
+                depth = Depth.from_netCDF(
+                    grid_file=dg,
+                    dataset=ds,
+                    time=time,
+                    tz_offset=tz_offset,
+                    time_origin=time_origin,
+                    displacement=displacement,
+                    grid=grid,
+                    **kwargs,
+                )
 
         if variables is None:
             variables = []
-- 
2.43.0


From f0b5cee7b1271c15248a462ac63f08263edbcacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:57 +0000
Subject: [PATCH 38/38] fix: data with levels before times: the first and last
 time keep the chosen level

---
 gridded/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index c18518d..0fbc1fc 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -714,9 +714,9 @@ class Variable:
 
         if time == self.time.min_time or (extrapolate and time < self.time.min_time):
             # min or before
-            return val_func(points, time, extrapolate, slices=(0,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (0,), **kwargs)
         elif time == self.time.max_time or (extrapolate and time > self.time.max_time):
-            return val_func(points, time, extrapolate, slices=(-1,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (-1,), **kwargs)
         else:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
-- 
2.43.0

