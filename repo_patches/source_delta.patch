From 1aec55e82a6f98717c19f0beea10dd8c4455e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 01/59] fix: keep a distributed dimension shorter than the
 minimum split on one rank instead of dropping its elements

---
 src/ocgis/vmachine/mpi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 2cabba3..3db9722 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -334,6 +334,8 @@ class OcgDist(AbstractOcgisObject):
                     the_size = len(distributed_dimension)
                 # Use the minimum number of elements per rank to potentially adjust the size.
                 min_size = int(np.floor(len(distributed_dimension) / float(min_elements)))
+                # A dimension shorter than the minimum must still live on one rank or its elements are lost.
+                min_size = max(min_size, 1)
                 if self.size > 1 and min_size < the_size:
                     the_size = min_size
 
-- 
2.43.0


From 6bc5b38596274080b725fa40332d45c477d1b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 02/59] fix: resolve open-ended, negative and out-of-range
 slices when slicing a dimension

---
 src/ocgis/variable/dimension.py | 57 +++++++--------------------------
 1 file changed, 12 insertions(+), 45 deletions(-)

diff --git a/src/ocgis/variable/dimension.py b/src/ocgis/variable/dimension.py
index 26454c4..5dafa17 100644
--- a/src/ocgis/variable/dimension.py
+++ b/src/ocgis/variable/dimension.py
@@ -404,33 +404,11 @@ class Dimension(AbstractNamedObject):
 
     def __getitem_main__(self, ret, slc):
         length_self = len(self)
-        try:
-            length = len(slc)
-        except TypeError:
-            # Likely a slice object.
-            try:
-                length = slc.stop - slc.start
-            except TypeError:
-                # Likely a NoneType slice.
-                if slc.start is None:
-                    if slc.stop is not None and slc.stop > 0:
-                        length = length_self
-                    elif slc.stop is None:
-                        length = length_self
-                    else:
-                        length = length_self + slc.stop
-                elif slc.stop is None:
-                    if slc.start > 0:
-                        length = length_self - slc.start
-                    else:
-                        length = abs(slc.start)
-                else:
-                    raise
-            else:
-                # If the slice length is greater than the current length, keep the length the same.
-                if length > length_self:
-                    length = length_self
+        if isinstance(slc, slice):
+            # Resolve open-ended, negative, and out-of-range limits.
+            length = len(range(*slc.indices(length_self)))
         else:
+            length = len(slc)
             try:
                 # Check for boolean slices.
                 if slc.dtype == bool:
@@ -439,10 +417,6 @@ class Dimension(AbstractNamedObject):
                 # Likely a list/tuple.
                 pass
 
-        if length < 0:
-            # This is using negative indexing. Subtract from the current length.
-            length += length_self
-
         # Slice the source index. If the source index is None, a value of None will be returned by the slice operation.
         src_idx = slice_source_index(slc, ret._src_idx)
 
@@ -523,25 +497,18 @@ def slice_source_index(slc, src_idx):
                 src_idx = src_idx.__getitem__(slc)
             else:
                 offset = src_idx[0]
+                length = src_idx[1] - offset
                 if isinstance(slc, np.ndarray):
                     if slc.dtype == bool:
                         slc = np.where(slc)[0]
-                    src_idx = slc + offset
+                    src_idx = np.where(slc < 0, slc + length, slc) + offset
                 else:
-                    new_si = np.array(src_idx) - offset
-                    start, stop = slc.start, slc.stop
-
-                    if start < 0:
-                        new_si[0] = new_si[1] + start
-                    elif start > new_si[0]:
-                        new_si[0] = start
-
-                    if stop < 0:
-                        new_si[1] = new_si[1] + stop
-                    elif stop < new_si[1]:
-                        new_si[1] = stop
-                    new_si += offset
-                    src_idx = tuple(new_si)
+                    # Resolve open-ended, negative, and out-of-range limits.
+                    start, stop, step = slc.indices(length)
+                    if step == 1:
+                        src_idx = (start + offset, max(start, stop) + offset)
+                    else:
+                        src_idx = np.arange(start, stop, step) + offset
         else:
             src_idx = None
     return src_idx
-- 
2.43.0


From 26e05134f3c72482ca7e8c5b43787f7c01327061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 03/59] fix: keep order, repeats and negative positions of
 index arrays and the last element of negative indexing when slicing

---
 src/ocgis/util/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index d5d76b1..df73385 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -445,7 +445,8 @@ def get_formatted_slice(slc, n_dims):
             pass
 
         if isinstance(single_slc, int):
-            ret = slice(single_slc, single_slc + 1)
+            # The stop for the last element must be open when using negative indexing.
+            ret = slice(single_slc, single_slc + 1 if single_slc != -1 else None)
         elif isinstance(single_slc, slice):
             ret = single_slc
         elif isinstance(single_slc, np.ndarray):
@@ -625,7 +626,8 @@ def get_optimal_slice_from_array(arr, check_diff=True):
     if arr.dtype == bool:
         ret = arr
     else:
-        if check_diff and np.any(np.diff(arr) > 1):
+        # Only strictly consecutive, non-negative indices are equivalent to a slice.
+        if check_diff and (np.any(np.diff(arr) != 1) or np.any(arr < 0)):
             ret = arr
         else:
             arr_min, arr_max = arr.min(), arr.max()
-- 
2.43.0


From edfcca008ebb2cd9b4d4627ba6f6b774df276f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 04/59] fix: select independently along each dimension when
 slicing with several index arrays

---
 src/ocgis/util/helpers.py  |  4 ++--
 src/ocgis/variable/base.py | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index df73385..b5dafab 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -454,8 +454,8 @@ def get_formatted_slice(slc, n_dims):
         elif isinstance(single_slc, (list, tuple)):
             if len(single_slc) == 1 and isinstance(single_slc[0], slice):
                 ret = single_slc[0]
-            elif len(single_slc) == 1 and isinstance(single_slc[0], ndarray):
-                ret = get_optimal_slice_from_array(single_slc[0])
+            elif len(single_slc) == 1 and isinstance(single_slc[0], (ndarray, list, tuple)):
+                ret = get_optimal_slice_from_array(np.array(single_slc[0], ndmin=1))
             else:
                 ret = get_optimal_slice_from_array(np.array(single_slc, ndmin=1))
         elif single_slc is None:
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 18c061c..db9fe69 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -324,9 +324,9 @@ class Variable(AbstractContainer, Attributes):
         new_mask = None
 
         if ret._value is not None:
-            new_value = ret.get_value().__getitem__(slc)
+            new_value = get_orthogonal_slice(ret.get_value(), slc)
         if ret._mask is not None:
-            new_mask = ret._mask.__getitem__(slc)
+            new_mask = get_orthogonal_slice(ret._mask, slc)
 
         if new_value is not None:
             ret._value = new_value
@@ -2434,6 +2434,19 @@ def get_mapping_for_slice(names_source, names_destination):
     return ret
 
 
+def get_orthogonal_slice(arr, slc):
+    """
+    Slice an array selecting elements independently along each dimension. Avoids ``numpy`` pairing index arrays.
+    """
+    if sum([isinstance(s, ndarray) for s in slc]) > 1:
+        ret = arr
+        for idx, s in enumerate(slc):
+            ret = ret[(slice(None),) * idx + (s,)]
+    else:
+        ret = arr.__getitem__(slc)
+    return ret
+
+
 def get_shape_from_variable(variable):
     dimensions = variable._dimensions
     value = variable._value
-- 
2.43.0


From ea0fa45e2c2cd7a7f2676531705dd5107b63322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 05/59] fix: do not write into mask memory shared with copies
 and slices when propagating a mask

---
 src/ocgis/variable/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index db9fe69..e828150 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2541,6 +2541,9 @@ def set_mask_by_variable(source_variable, target_variable, slice_map=None, updat
             # If the target mask is none, we will need to generate one.
             if mask_target is None:
                 mask_target = np.zeros(target_variable.shape, dtype=bool)
+            else:
+                # The mask's memory may be shared with a shallow copy or slice of the target.
+                mask_target = mask_target.copy()
             template = [slice(None)] * target_variable.ndim
             for slc in itertools.product(*[list(range(ii)) for ii in source_variable.shape]):
                 # slc = [slice(s, s + 1) for s in slc]
-- 
2.43.0


From 256da455e1053c0a9138b34aeed2b234062d8c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 06/59] fix: honour overrides of DEFAULT_COORDSYS, late
 environment variables of auto-detected settings and integer STRING_MAX_LENGTH

---
 src/ocgis/environment.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/ocgis/environment.py b/src/ocgis/environment.py
index efe07cd..7f44813 100644
--- a/src/ocgis/environment.py
+++ b/src/ocgis/environment.py
@@ -75,7 +75,7 @@ class Environment(AbstractOcgisObject):
         self.USE_ICCLIM = EnvParmImport('USE_ICCLIM', None, 'icclim')
         self.USE_MPI4PY = EnvParmImport('USE_MPI4PY', None, 'mpi4py')
         self.USE_MEMORY_OPTIMIZATIONS = EnvParm('USE_MEMORY_OPTIMIZATIONS', False, formatter=self._format_bool_)
-        self.USE_NETCDF4_MPI = EnvParm('USE_NETCDF4_MPI', None, formatter=self._format_bool_)
+        self.USE_NETCDF4_MPI = EnvParm('USE_NETCDF4_MPI', get_netcdf4_mpi_available(), formatter=self._format_bool_)
         self.CONF_PATH = EnvParm('CONF_PATH', os.path.expanduser('~/.config/ocgis.conf'))
         self.SUPPRESS_WARNINGS = EnvParm('SUPPRESS_WARNINGS', True, formatter=self._format_bool_)
         self.DEFAULT_GEOM_UID = EnvParm('DEFAULT_GEOM_UID', constants.OCGIS_UNIQUE_GEOMETRY_IDENTIFIER, formatter=str)
@@ -85,7 +85,8 @@ class Environment(AbstractOcgisObject):
         # If True, place an MPI barrier following OCGIS operations.
         self.ADD_OPS_MPI_BARRIER = EnvParm('ADD_OPS_MPI_BARRIER', True, formatter=self._format_bool_)
         # If True, prefer using netcdftime if available. If None, automatically detect which to use.
-        self.PREFER_NETCDFTIME = EnvParm('PREFER_NETCDFTIME', None, formatter=self._format_bool_)
+        self.PREFER_NETCDFTIME = EnvParm('PREFER_NETCDFTIME', get_netcdftime_preference(),
+                                         formatter=self._format_bool_)
         # If True, add units and possibly calendar for time variables on bounds variables.
         self.CLOBBER_UNITS_ON_BOUNDS = EnvParm('CLOBBER_UNITS_ON_BOUNDS', True, formatter=self._format_bool_)
         # If True, add axis attributes to grid coordinate variables when the grid is initialized.
@@ -94,17 +95,10 @@ class Environment(AbstractOcgisObject):
         # removed before writing and replaced with the original.
         self.COORDSYS_ACTUAL = EnvParm('COORDSYS_ACTUAL', None)
         # The maximum string length to use when creating NetCDF string variables.
-        self.STRING_MAX_LENGTH = EnvParm('STRING_MAX_LENGTH', 255)
+        self.STRING_MAX_LENGTH = EnvParm('STRING_MAX_LENGTH', 255, formatter=int)
 
-        if self.PREFER_NETCDFTIME is None:
-            self.PREFER_NETCDFTIME = get_netcdftime_preference()
-
-        if self.USE_NETCDF4_MPI is None:
-            import netCDF4
-            self.USE_NETCDF4_MPI = False
-            if hasattr(netCDF4, '__has_nc_par__'):
-                if netCDF4.__has_nc_par__ == 1:
-                    self.USE_NETCDF4_MPI = True
+        # The default value is set when the coordinate system is accessed.
+        self._default_coordsys = EnvParm('DEFAULT_COORDSYS', None)
 
         self.ops = None
         self._optimize_store = {}
@@ -138,7 +132,9 @@ class Environment(AbstractOcgisObject):
     def DEFAULT_COORDSYS(self):
         """Here to handle circular imports."""
         from ocgis.variable.crs import CFSpherical
-        return EnvParm('DEFAULT_COORDSYS', CFSpherical())
+        ret = object.__getattribute__(self, '_default_coordsys')
+        ret.default = CFSpherical()
+        return ret
 
     def configure_logging(self, with_header=True):
         from ocgis.util.logging_ocgis import ocgis_lh
@@ -296,6 +292,12 @@ def get_dtype(string_name, data_model=None):
     return mp[string_name]
 
 
+def get_netcdf4_mpi_available():
+    import netCDF4
+
+    return getattr(netCDF4, '__has_nc_par__', 0) == 1
+
+
 def get_netcdftime_preference():
     # netcdftime added more advanced operation in later versions. Check if __add__ is available on the class to
     # determine usage preference.
-- 
2.43.0


From 9e7a77e6931c7f2c2e623f00d37cab285929be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 07/59] fix: refuse a subcommunicator name in use whatever its
 ranks, without replacing the active communicator

---
 src/ocgis/vmachine/core.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/vmachine/core.py b/src/ocgis/vmachine/core.py
index aab6052..f197bb0 100644
--- a/src/ocgis/vmachine/core.py
+++ b/src/ocgis/vmachine/core.py
@@ -109,21 +109,20 @@ class OcgVM(AbstractOcgisObject):
         if self._is_dummy:
             self._subcomms[name] = self._comm
         else:
+            if name in self._subcomms and not clobber:
+                raise SubcommAlreadyCreatedError(name)
             if len(ranks) == 0:
-                self._subcomms[name] = COMM_NULL
+                subcomm = COMM_NULL
             else:
                 the_pool = self.comm.Get_group()
                 sub_group = the_pool.Incl(ranks)
                 try:
-                    ret = self.comm.Create(sub_group)
-                    if name in self._subcomms:
-                        if clobber:
-                            vm.free_subcomm(name=name)
-                        else:
-                            raise SubcommAlreadyCreatedError(name)
-                    self._subcomms[name] = ret
+                    subcomm = self.comm.Create(sub_group)
                 finally:
                     sub_group.Free()
+            if name in self._subcomms:
+                self.free_subcomm(name=name)
+            self._subcomms[name] = subcomm
         if is_current:
             self._current_comm_name = name
         return name
-- 
2.43.0


From 44375d25ef0299556c4b24bc63e475d02ee887ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 08/59] fix: gather the bounds of a distributed variable with
 it

---
 src/ocgis/vmachine/mpi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 3db9722..a74ae9e 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -769,6 +769,11 @@ def variable_gather(variable, root=0):
             new_variable._value = None
             new_variable._dimensions = None
             assert not new_variable.has_allocated_value
+            if new_variable.has_bounds:
+                # The bounds are filled along with the variable.
+                new_variable.bounds.dtype = variable.bounds.dtype
+                new_variable.bounds._mask = None
+                new_variable.bounds._value = None
         else:
             new_variable = None
     else:
-- 
2.43.0


From ae6de4e5aec4f04adb54df49a52158d8bd71d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 09/59] fix: keep masks and weights when averaging over unioned
 geometries

---
 src/ocgis/variable/geom.py | 97 +++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 48 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index ab6972b..d468d44 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1,5 +1,5 @@
 import logging
-from collections import deque
+from collections import deque, OrderedDict
 from copy import deepcopy
 from itertools import product
 
@@ -952,6 +952,9 @@ class GeometryVariable(AbstractSpatialVariable):
 
         # Spatial average shared dimensions.
         if spatial_average is not None:
+            # Holds the sum of the weights used for each averaged value.
+            sums_of_weights = OrderedDict()
+
             # Get source data to weight.
             for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(self.parent.values())):
                 # Holds sizes of dimensions to iterate. These dimension are not squeezed by the weighted averaging.
@@ -968,7 +971,12 @@ class GeometryVariable(AbstractSpatialVariable):
                         names_to_itr.append(dn.name)
 
                 # Reference the weights on the source geometry variable.
-                weights = self[{nsa: slice(None) for nsa in names_to_slice_all}].weights
+                sub_geom = self[{nsa: slice(None) for nsa in names_to_slice_all}]
+                weights = sub_geom.weights
+                # The weights are relative to the largest area on this rank. It is needed to combine values across ranks.
+                area = sub_geom.area
+                area.data[area.data == 0] = 1.0
+                max_area = area.filled(0).max()
 
                 # Path if there are iteration dimensions. Checks for axes ordering in addition.
                 if len(range_to_itr) > 0:
@@ -982,7 +990,12 @@ class GeometryVariable(AbstractSpatialVariable):
                     target.set_mask(None)
                     target._value = None
                     target.set_dimensions(new_dimensions)
+                    if np.issubdtype(target.dtype, np.integer):
+                        # An average is not a whole number.
+                        target.dtype = env.NP_FLOAT
                     target.allocate_value()
+                    target_mask = np.zeros(target.shape, dtype=bool)
+                    sum_of_weights = np.zeros(target.shape, dtype=float)
 
                     # Swap weight axes to make sure they align with the target variable.
                     swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
@@ -1007,7 +1020,11 @@ class GeometryVariable(AbstractSpatialVariable):
                         if should_squeeze:
                             data_to_weight = np_squeeze(data_to_weight, axis=tuple(squeeze_out))
                         weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
-                        target[w_slc].get_value()[:] = weighted_value
+                        target[w_slc].get_value()[:] = np.ma.getdata(weighted_value)
+                        target_mask[nonweighted_indices] = np.ma.getmaskarray(weighted_value)
+                        sum_of_weights[nonweighted_indices] = get_sum_of_weights(data_to_weight, weights) * max_area
+                    if target_mask.any():
+                        target.set_mask(target_mask)
                 else:
                     target_to_weight = var_to_weight.get_masked_value()
                     # Sort to minimize floating point sum errors.
@@ -1022,53 +1039,26 @@ class GeometryVariable(AbstractSpatialVariable):
                     target.set_mask(None)
                     target._value = None
                     target.set_dimensions(new_dimensions)
-                    target.set_value(weighted_value)
+                    if np.issubdtype(target.dtype, np.integer):
+                        target.dtype = env.NP_FLOAT
+                    target.set_value(np.ma.getdata(weighted_value))
+                    if np.ma.getmaskarray(weighted_value).any():
+                        target.set_mask(np.ma.getmaskarray(weighted_value))
+                    sum_of_weights = np.atleast_1d(get_sum_of_weights(target_to_weight, weights) * max_area)
 
-            # Collect areas of live ranks and convert to weights.
-            if vm.size > 1:
-                # If there is no area information (points for example, we need to use counts).
-                if ret.area.data[0].max() == 0:
-                    weight_or_proxy = float(self.size)
-                else:
-                    weight_or_proxy = ret.area.data[0]
+                sums_of_weights[var_to_weight.name] = sum_of_weights
 
-                if vm.rank != root:
-                    vm.comm.send(weight_or_proxy, dest=root)
-                else:
-                    live_rank_areas = [weight_or_proxy]
-                    for tner in vm.ranks:
-                        if tner != vm.rank:
-                            recv_area = vm.comm.recv(source=tner)
-                            live_rank_areas.append(recv_area)
-                    live_rank_areas = np.array(live_rank_areas)
-
-                    rank_weights = live_rank_areas / np.max(live_rank_areas)
-
-                for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(ret.parent.values())):
-                    dimensions_to_itr = [dim.name for dim in var_to_weight.dimensions if
-                                         dim.name != union_dimension.name]
-                    slc = {union_dimension.name: 0}
-                    for idx_slc in var_to_weight.iter_dict_slices(dimensions=dimensions_to_itr):
-                        idx_slc.update(slc)
-                        to_weight = var_to_weight[idx_slc].get_value().flatten()[0]
-                        if vm.rank == root:
-                            collected_to_weight = [to_weight]
-                        if not vm.rank == root:
-                            vm.comm.send(to_weight, dest=root)
-                        else:
-                            for tner in vm.ranks:
-                                if not tner == root:
-                                    recv_to_weight = vm.comm.recv(source=tner)
-                                    collected_to_weight.append(recv_to_weight)
-
-                            # Sort to minimize floating point sum errors.
-                            collected_to_weight = np.array(collected_to_weight)
-                            sindices = np.argsort(collected_to_weight)
-                            collected_to_weight = collected_to_weight[sindices]
-                            rank_weights = rank_weights[sindices]
-
-                            weighted = np.atleast_1d(np.ma.average(collected_to_weight, weights=rank_weights))
-                            var_to_weight[idx_slc].get_value()[:] = weighted
+            # Combine the averages of the live ranks. Each average counts with the weights of the values it was made from.
+            if vm.size > 1:
+                for name, sum_of_weights in sums_of_weights.items():
+                    target = ret.parent[name]
+                    gathered = vm.gather((target.get_masked_value(), sum_of_weights))
+                    if vm.rank == root:
+                        combined = np.ma.average(np.ma.stack([g[0] for g in gathered]), axis=0,
+                                                 weights=np.stack([g[1] for g in gathered]))
+                        target.get_value()[:] = np.ma.getdata(combined)
+                        combined_mask = np.ma.getmaskarray(combined)
+                        target.set_mask(combined_mask if combined_mask.any() else None)
         if vm.rank == root:
             return ret
         else:
@@ -1299,6 +1289,17 @@ def get_masking_slice(intersects_mask_value, target, apply_slice=True):
     return ret, ret_mask, global_slice
 
 
+def get_sum_of_weights(values, weights):
+    """
+    :param values: masked array of averaged values
+    :param weights: array of weights with the same shape
+    :return: the sum of the weights counting towards the average of the values
+    :rtype: float
+    """
+    ignored = np.ma.getmaskarray(values) | np.ma.getmaskarray(weights)
+    return float(np.ma.array(np.ma.getdata(weights), mask=ignored).filled(0).sum())
+
+
 def get_geom_type(data):
     geom_type = None
     for geom in data.flat:
-- 
2.43.0


From 1fbaab971bc2f3fbf2505b05955ed89857d97f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 10/59] fix: keep send buffers alive while unique arrays are
 exchanged

---
 src/ocgis/util/helpers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index b5dafab..92df8f4 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -1082,14 +1082,18 @@ def create_unique_global_array(arr):
     np_type = unique_local.dtype
     mpi_type = vm.get_mpi_type(np_type)
 
+    # The buffers must stay alive until the messages are delivered.
+    sent = []
     for o in overlaps:
         if vm.rank != o and vm.rank < o:
             dest_rank_bounds = lb_global[o]
             select_send = np.logical_and(unique_local >= dest_rank_bounds[0], unique_local <= dest_rank_bounds[1])
             u_src = unique_local[select_send]
-            select_send_size = u_src.size
-            _ = vm.comm.Isend([np.array([select_send_size], dtype=np_type), mpi_type], dest=o, tag=tag_select_send_size)
-            _ = vm.comm.Isend([u_src, mpi_type], dest=o, tag=tag_overlap)
+            select_send_size = np.array([u_src.size], dtype=np_type)
+            req_size = vm.comm.Isend([select_send_size, mpi_type], dest=o, tag=tag_select_send_size)
+            req_src = vm.comm.Isend([u_src, mpi_type], dest=o, tag=tag_overlap)
+            sent.append((req_size, select_send_size))
+            sent.append((req_src, u_src))
 
     # Receive and process conflicts to reduce the unique local values.
     if vm.rank != 0:
@@ -1110,6 +1114,9 @@ def create_unique_global_array(arr):
                         utokeep[uidx] = False
                 unique_local = unique_local[utokeep]
 
+    for req, _ in sent:
+        req.wait()
+
     vm.barrier()
     return unique_local
 
-- 
2.43.0


From a4dffd07cd0251a2c1cf9c327a5d1a619ef9e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 11/59] fix: declare a fill value when any process holds masked
 values

---
 src/ocgis/driver/nc.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index ddceca1..5f4e864 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -81,6 +81,7 @@ class DriverNetcdf(AbstractDriver):
 
         file_only = kwargs.pop(KeywordArgument.FILE_ONLY, False)
         unlimited_to_fixed_size = kwargs.pop(KeywordArgument.UNLIMITED_TO_FIXED_SIZE, False)
+        has_masked_values = kwargs.pop('has_masked_values', None)
 
         # No data should be written during a global write. Data will be filled in during the append process.
         if write_mode == MPIWriteMode.TEMPLATE:
@@ -119,8 +120,10 @@ class DriverNetcdf(AbstractDriver):
                 dimensions = [d.name for d in dimensions]
 
             # Only use the fill value if something is masked.
+            if has_masked_values is None:
+                has_masked_values = var.has_masked_values
             is_nc3 = dataset.data_model.startswith('NETCDF3')
-            if ((len(dimensions) > 0 and var.has_masked_values) and (
+            if ((len(dimensions) > 0 and has_masked_values) and (
                     write_mode == MPIWriteMode.TEMPLATE or not file_only)) or (
                     is_nc3 and not var.has_allocated_value and len(
                 dimensions) > 0) or (env.USE_NETCDF4_MPI and var.has_mask and vm.size > 1):
@@ -195,6 +198,17 @@ class DriverNetcdf(AbstractDriver):
         else:
             possible_ranks = vm.ranks
 
+        # The rank creating the file must know about values masked on any rank.
+        has_masked_values = {}
+        if write_mode == MPIWriteMode.TEMPLATE:
+            for variable in get_variables_to_write(vc):
+                if not isinstance(variable, CoordinateReferenceSystem):
+                    variable.load()
+                    has_masked_values[variable.name] = not variable.is_empty and bool(variable.has_masked_values)
+            for rank_masked_values in vm.bcast(vm.gather(has_masked_values)):
+                for name, value in rank_masked_values.items():
+                    has_masked_values[name] = has_masked_values.get(name, False) or value
+
         # Write the data on each rank.
         for idx, rank_to_write in enumerate(possible_ranks):
             # The template write only occurs on the first rank.
@@ -214,8 +228,11 @@ class DriverNetcdf(AbstractDriver):
                         variable.load()
                         # Call the individual variable write method in fill mode. Orphaning is required as a
                         # variable will attempt to write its parent first.
+                        curr_kwargs = variable_kwargs
+                        if variable.name in has_masked_values:
+                            curr_kwargs = dict(variable_kwargs, has_masked_values=has_masked_values[variable.name])
                         with orphaned(variable, keep_dimensions=True):
-                            variable.write(dataset, write_mode=write_mode, **variable_kwargs)
+                            variable.write(dataset, write_mode=write_mode, **curr_kwargs)
                     # Recurse the children.
                     for child in list(vc.children.values()):
                         if write_mode != MPIWriteMode.FILL:
-- 
2.43.0


From 4e84f0a7c72c6d7b2743b8f18e67544bead95b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 12/59] fix: write records when all values of the collection,
 or of one process, are masked

---
 src/ocgis/driver/base.py   | 37 +++++++++++++++++++++++++++++++++++++
 src/ocgis/driver/csv_.py   |  4 ++--
 src/ocgis/driver/vector.py |  4 ++--
 3 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 2d57377..ffed92b 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -870,6 +870,43 @@ class AbstractDriver(AbstractOcgisObject):
         """
 
 
+def get_archetype_record(vc, find_values=False, **iter_kwargs):
+    """
+    Get a record having the names (and values) of the records yielded by a collection. The call is collective across the
+    current VM. Ranks (or collections) having nothing but masked records are okay.
+
+    :param vc: The collection to get the record from.
+    :type vc: :class:`~ocgis.VariableCollection`
+    :param bool find_values: If ``True``, replace empty values (``None``) in the record with the value from the first
+     record having one. These are used to find data types.
+    :param iter_kwargs: Keyword arguments to the iterator function of ``vc``.
+    :rtype: dict
+    """
+    ret = None
+    for _, record in vc.iter(**iter_kwargs):
+        if ret is None:
+            ret = record.copy()
+        else:
+            for k, v in record.items():
+                if ret.get(k) is None:
+                    ret[k] = v
+        if not find_values or all([v is not None for v in ret.values()]):
+            break
+    is_masked = ret is None
+    if is_masked:
+        iter_kwargs[KeywordArgument.ALLOW_MASKED] = True
+        ret = six.next(vc.iter(**iter_kwargs))[1].copy()
+
+    gathered = vm.bcast(vm.gather((is_masked, ret)))
+    gathered = [g[1] for g in gathered if not g[0]] + [g[1] for g in gathered if g[0]]
+    ret = gathered[0]
+    for record in gathered[1:]:
+        for k in ret.keys():
+            if ret[k] is None:
+                ret[k] = record.get(k)
+    return ret
+
+
 @six.add_metaclass(abc.ABCMeta)
 class AbstractTabularDriver(AbstractDriver):
     """
diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index 4a8534b..7972181 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -5,7 +5,7 @@ import six
 from ocgis import vm
 from ocgis.base import raise_if_empty
 from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey
-from ocgis.driver.base import driver_scope, AbstractTabularDriver
+from ocgis.driver.base import driver_scope, AbstractTabularDriver, get_archetype_record
 
 
 class DriverCSV(AbstractTabularDriver):
@@ -60,7 +60,7 @@ class DriverCSV(AbstractTabularDriver):
 
         iter_kwargs = kwargs.pop(KeywordArgument.ITER_KWARGS, {})
 
-        fieldnames = list(six.next(vc.iter(**iter_kwargs))[1].keys())
+        fieldnames = list(get_archetype_record(vc, **iter_kwargs).keys())
 
         if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
             with driver_scope(cls, opened_or_path, mode='w') as opened:
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 26d5230..acbdd65 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -7,7 +7,7 @@ import fiona
 import numpy as np
 from ocgis import constants, vm
 from ocgis.constants import MPIWriteMode, DimensionName, KeywordArgument, DriverKey, DMK, SourceIndexType, VariableName
-from ocgis.driver.base import driver_scope, AbstractTabularDriver
+from ocgis.driver.base import driver_scope, AbstractTabularDriver, get_archetype_record
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.environment import get_dtype
 from ocgis.exc import RequestableFeature
@@ -238,7 +238,7 @@ class DriverVector(AbstractTabularDriver):
             if fiona_crs is None:
                 if field.crs is not None:
                     fiona_crs = field.crs.value
-            _, archetype_record = next(field.iter(**iter_kwargs))
+            archetype_record = get_archetype_record(field, find_values=True, **iter_kwargs)
             archetype_record = format_record_for_fiona(fiona_driver, archetype_record)
             if fiona_schema is None:
                 fiona_schema = get_fiona_schema(geom_variable.geom_type, archetype_record)
-- 
2.43.0


From aed86dce2f5cc05e2657b4377089a1a0193cdbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 13/59] fix: keep names, bounds links, tags and roles in step
 when variables are removed, renamed or extracted, and leave collections alone
 when an addition is refused

---
 src/ocgis/collection/field.py     | 17 ++++++
 src/ocgis/driver/dimension_map.py | 43 ++++++++++++++-
 src/ocgis/spatial/base.py         |  1 +
 src/ocgis/spatial/grid.py         |  3 +-
 src/ocgis/variable/base.py        | 92 +++++++++++++++++++++----------
 5 files changed, 125 insertions(+), 31 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 034d41d..2914269 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1028,6 +1028,12 @@ class Field(VariableCollection):
 
         self.dimension_map.set_crs(to_crs)
 
+    def rename_dimension(self, old_name, new_name):
+        """See :meth:`ocgis.VariableCollection.rename_dimension`. This also renames the dimension in the dimension map."""
+
+        super(Field, self).rename_dimension(old_name, new_name)
+        self.dimension_map._rename_dimension_(old_name, new_name)
+
     def wrap(self, inplace=True):
         """
         Wrap the field's coordinates contained in its grid and/or geometry.
@@ -1073,6 +1079,17 @@ class Field(VariableCollection):
         return driver.write_field(*args, **kwargs)
 
 
+    def _forget_variables_(self, names):
+        super(Field, self)._forget_variables_(names)
+        self.dimension_map._forget_variables_(names)
+
+    def _rename_member_(self, member, old_name, new_name):
+        is_variable = not isinstance(member, VariableCollection) and old_name in self
+        super(Field, self)._rename_member_(member, old_name, new_name)
+        if is_variable:
+            self.dimension_map._rename_variable_(old_name, new_name)
+
+
 def get_field_property(field, name, strict=False):
     variable = field.dimension_map.get_variable(name)
     bounds = field.dimension_map.get_bounds(name)
diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index f64903a..81727e7 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -541,9 +541,10 @@ class DimensionMap(AbstractOcgisObject):
                 # Default attributes are empty.
                 attrs = self._storage.__class__()
 
-        # Allow for any variable attributes.
+        # Allow for any variable attributes. The name of the bounds variable may change and is kept as its own element.
         if hasattr(variable, 'attrs'):
             attrs.update(variable.attrs)
+            attrs.pop(getattr(variable, '_bounds_attribute_name', None), None)
 
         # Dimension map attributes always take precedence. Dimension map attrs > Variable Attributes > Default Attributes
         current_attrs = self.get_attrs(entry_key)
@@ -588,6 +589,46 @@ class DimensionMap(AbstractOcgisObject):
                 if len(metadata_dimensions) > 0:
                     self.set_variable(k, variable_name, dimension=metadata_dimensions)
 
+    def _forget_variables_(self, names):
+        """Drop roles and bounds of variables no longer in the parent. Attributes of the roles are kept."""
+
+        for entry in self._iter_variable_entries_():
+            if entry.get(DMK.VARIABLE) in names:
+                entry[DMK.VARIABLE] = None
+                for key, value in ((DMK.BOUNDS, None), (DMK.DIMENSION, [])):
+                    if key in entry:
+                        entry[key] = value
+            if entry.get(DMK.BOUNDS) in names:
+                entry[DMK.BOUNDS] = None
+
+    def _iter_variable_entries_(self):
+        for key, entry in self._storage.items():
+            if key == DMK.TOPOLOGY:
+                for topology in entry.values():
+                    if topology is not None:
+                        for e in topology._iter_variable_entries_():
+                            yield e
+            elif key not in (DMK.GROUPS, DMK.DRIVER) and isinstance(entry, dict) and entry.get(DMK.VARIABLE) is not None:
+                yield entry
+
+    def _link_bounds_(self, variable, bounds):
+        """Set the bounds of every role held by the variable."""
+
+        for entry in self._iter_variable_entries_():
+            if entry[DMK.VARIABLE] == variable.name:
+                entry[DMK.BOUNDS] = get_variable_names(bounds)[0]
+
+    def _rename_dimension_(self, old_name, new_name):
+        for entry in self._iter_variable_entries_():
+            if old_name in (entry.get(DMK.DIMENSION) or []):
+                entry[DMK.DIMENSION] = [new_name if name == old_name else name for name in entry[DMK.DIMENSION]]
+
+    def _rename_variable_(self, old_name, new_name):
+        for entry in self._iter_variable_entries_():
+            for key in (DMK.VARIABLE, DMK.BOUNDS):
+                if entry.get(key) == old_name:
+                    entry[key] = new_name
+
     def _get_element_(self, entry_key, element_key, default):
         if entry_key == DMK.CRS:
             raise DimensionMapError(entry_key, "Use 'get_crs' to get the CRS variable name.")
diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index 2ff36b3..c4ba102 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -679,6 +679,7 @@ class AbstractSpatialVariable(AbstractOperationsSpatialObject, SourcedVariable):
         ret = super(AbstractSpatialVariable, self).extract(**kwargs)
         if crs is not None:
             ret.parent.add_variable(crs)
+            ret.parent.dimension_map.set_crs(crs)
         return ret
 
 
diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index a22add9..c57b6e0 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -453,8 +453,9 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         new_parent = self.parent.copy()
         original_parent = self.parent
         members = get_variable_names(self.get_member_variables())
+        crs = self.crs
         for v in self.parent.values():
-            if v.name not in members:
+            if v.name not in members and v is not crs:
                 new_parent.remove_variable(v, remove_bounds=False)
         if clean_break:
             to_remove = []
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index e828150..4e25e22 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -160,9 +160,10 @@ class AbstractContainer(AbstractNamedObject):
         See :class:`~ocgis.base.AbstractNamedObject` for documentation.
         """
         parent = self._parent
-        if parent is not None and self.name in parent:
-            parent[name] = parent.pop(self.name)
+        old_name = self.name
         super(AbstractContainer, self).set_name(name, aliases=aliases)
+        if parent is not None and old_name != name:
+            parent._rename_member_(self, old_name, name)
 
     @abstractmethod
     def _get_dimensions_(self):
@@ -1121,17 +1122,13 @@ class Variable(AbstractContainer, Attributes):
                 to_keep.append(self.bounds.name)
 
             if clean_break:
-                original_parent = self.parent
-                new_parent = ret.parent
-                to_pop_in_new = set(original_parent.keys()).difference(set(to_keep))
-                for tk in to_keep:
-                    original_parent.remove_variable(tk)
-                for tp in to_pop_in_new:
-                    new_parent.pop(tp)
-            else:
-                for var in list(ret.parent.values()):
-                    if var.name not in to_keep:
-                        ret.parent.pop(var.name)
+                # The bounds are removed with the variable.
+                self.parent.remove_variable(self)
+
+            to_pop_in_new = [name for name in ret.parent.keys() if name not in to_keep]
+            for name in to_pop_in_new:
+                ret.parent.pop(name)
+            ret.parent._forget_variables_(to_pop_in_new)
 
         ret = ret.parent[self.name]
 
@@ -1140,7 +1137,7 @@ class Variable(AbstractContainer, Attributes):
         if keep_bounds and ret.has_bounds:
             dimensions_to_keep += list(get_dimension_names(ret.bounds.dimensions))
         dimensions_to_keep = set(dimensions_to_keep)
-        dimensions_remaining = set(self.parent.dimensions.keys())
+        dimensions_remaining = set(ret.parent.dimensions.keys())
         dimensions_to_pop = dimensions_remaining.difference(dimensions_to_keep)
         for d in dimensions_to_pop:
             ret.parent.dimensions.pop(d)
@@ -1444,13 +1441,16 @@ class Variable(AbstractContainer, Attributes):
         parent = self.parent
         if value is None:
             if self._bounds_name is not None:
-                parent.pop(self._bounds_name)
+                bounds_name = self._bounds_name
+                parent.pop(bounds_name)
+                parent._forget_variables_([bounds_name])
                 self.attrs.pop(bounds_attr_name, None)
             self._bounds_name = None
         else:
+            # Adding the variable may be refused. Only link the bounds if they are in the collection.
+            parent.add_variable(value, force=force)
             self._bounds_name = value.name
             self.attrs[bounds_attr_name] = value.name
-            parent.add_variable(value, force=force)
             # Do not naively set the units as it may insert a None into the attributes dictionary.
             if clobber_units and self.units is not None:
                 value.units = self.units
@@ -1463,10 +1463,7 @@ class Variable(AbstractContainer, Attributes):
         # Attempt to update the dimension map for bounds designation (variable collection parents do not have a
         # dimension map).
         if not self.is_empty and hasattr(parent, KeywordArgument.DIMENSION_MAP):
-            dmap = parent.dimension_map
-            dkey = dmap.inquire_is_xyz(self)
-            if dkey is not None:
-                dmap.set_bounds(dkey, value)
+            parent.dimension_map._link_bounds_(self, value)
 
     def set_string_max_length_global(self, value=None):
         """
@@ -1835,10 +1832,8 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
          error if they are not.
         :raises: :class:`~ocgis.exc.DimensionMismatchError`
         """
-        existing_dim = self.dimensions.get(dimension.name)
-        if existing_dim is not None and not force:
-            if not existing_dim.eq(dimension, check_src_idx=check_src_idx):
-                raise DimensionMismatchError(dimension.name, self.name)
+        if dimension.name in self.dimensions and not force:
+            self._assert_dimension_equal_(dimension, check_src_idx=check_src_idx)
         else:
             self.dimensions[dimension.name] = dimension
 
@@ -1870,6 +1865,14 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
             else:
                 check_src_idx = True
 
+            # Refuse the variable before changing this collection or the variable's.
+            if not force:
+                for dimension in variable.parent.dimensions.values():
+                    self._assert_dimension_equal_(dimension, check_src_idx=check_src_idx)
+                for var in variable.parent.values():
+                    if var.name in self:
+                        raise VariableInCollectionError(var)
+
             for dimension in list(variable.parent.dimensions.values()):
                 self.add_dimension(dimension, force=force, check_src_idx=check_src_idx)
             for var in list(variable.parent.values()):
@@ -1919,6 +1922,9 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
                 ret[v.name] = v.copy()
             ret[v.name].parent = ret
         ret.children = ret.children.copy()
+        for k, child in list(ret.children.items()):
+            ret.children[k] = child.copy()
+            ret.children[k].parent = ret
         return ret
 
     def create_tag(self, tag):
@@ -2211,12 +2217,9 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
 
         ret = variable.extract(keep_bounds=remove_bounds, clean_break=False)
 
-        # Remove name from tags
         for rn in remove_names:
-            for v in list(self._tags.values()):
-                if rn in v:
-                    v.remove(rn)
             self.pop(rn)
+        self._forget_variables_(remove_names)
 
         # Check for orphaned dimensions.
         self.remove_orphaned_dimensions(dimensions=dims_to_check)
@@ -2230,7 +2233,8 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
         :param str old_name: The dimension's original name.
         :param str new_name: The dimension's new name.
         """
-        target_dimension = self.dimensions.pop(old_name)
+        # The dimension object may be shared with other collections.
+        target_dimension = self.dimensions.pop(old_name).copy()
         target_dimension.set_name(new_name)
         self.dimensions[new_name] = target_dimension
         for var in self.values():
@@ -2312,6 +2316,23 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
         args.insert(0, self)
         driver.write_variable_collection(*args, **kwargs)
 
+    def _assert_dimension_equal_(self, dimension, check_src_idx=True):
+        existing_dim = self.dimensions.get(dimension.name)
+        if existing_dim is not None and not existing_dim.eq(dimension, check_src_idx=check_src_idx):
+            raise DimensionMismatchError(dimension.name, self.name)
+
+    def _forget_variables_(self, names):
+        """Drop tag entries and bounds links for variables no longer in the collection."""
+
+        for name in names:
+            for tagged in self._tags.values():
+                while name in tagged:
+                    tagged.remove(name)
+        for var in self.values():
+            if getattr(var, '_bounds_name', None) in names and var._bounds_name is not None:
+                var._bounds_name = None
+                var.attrs.pop(var._bounds_attribute_name, None)
+
     def _get_dimensions_(self):
         return self._dimensions
 
@@ -2322,6 +2343,19 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
         # Endless recursion if a collection always initializes a parent.
         self._parent = None
 
+    def _rename_member_(self, member, old_name, new_name):
+        """Store a renamed variable or child collection under its new name and follow the name in bounds links."""
+
+        if isinstance(member, VariableCollection):
+            if self.children.get(old_name) is member:
+                self.children[new_name] = self.children.pop(old_name)
+        elif old_name in self:
+            self[new_name] = self.pop(old_name)
+            for var in self.values():
+                if getattr(var, '_bounds_name', None) == old_name:
+                    var._bounds_name = new_name
+                    var.attrs[var._bounds_attribute_name] = new_name
+
     def _validate_(self):
         ids_not_equal = []
         lens_not_equal = []
-- 
2.43.0


From 2d315000bf930cdf94cda24bca5e98b82af4caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 14/59] fix: convert any whole month offset, for any shape,
 order and calendar

---
 src/ocgis/variable/temporal.py | 55 ++++++++++++----------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 24471f6..7fa9de1 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -289,13 +289,13 @@ class TemporalVariable(SourcedVariable):
         """
 
         arr = np.atleast_1d(arr)
-        try:
-            ret = nc.date2num(arr, str(self.units), calendar=self.calendar)
-        except (ValueError, TypeError):
-            # Special behavior for conversion of time units with months.
-            if self._has_months_units:
-                ret = get_num_from_months_time_units(arr, self.units, dtype=None)
-            else:
+        # Special behavior for conversion of time units with months.
+        if self._has_months_units:
+            ret = get_num_from_months_time_units(arr, self.units, dtype=None)
+        else:
+            try:
+                ret = nc.date2num(arr, str(self.units), calendar=self.calendar)
+            except (ValueError, TypeError):
                 # Odd behavior in netcdftime objects? Try with datetime objects.
                 flat_arr = arr.flatten()
                 fill = np.zeros(flat_arr.shape, dtype=object)
@@ -799,25 +799,12 @@ def get_datetime_from_months_time_units(vec, units, month_centroid=16):
     # only work with integer inputs
     vec = np.array(vec, dtype=int)
 
-    def _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid):
-        return datetime.datetime(current_year, (origin_month + offset_month) - current_month_correction, month_centroid)
-
     origin = get_origin_datetime_from_months_units(units)
-    origin_month = origin.month
-    current_year = origin.year
-    current_month_correction = 0
-    if vec[0] >= 12:
-        current_year += int(vec[0] / 12)
-        vec = vec - (int(vec[0] / 12) * 12)
-    ret = np.ones(len(vec), dtype=object)
-    for ii, offset_month in enumerate(vec):
-        try:
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        except ValueError:
-            current_month_correction += 12
-            current_year += 1
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        ret[ii] = fill
+    ret = np.ones(vec.shape, dtype=object)
+    for idx in np.ndindex(*vec.shape):
+        # Count months from the start of the origin's year.
+        year_offset, month_index = divmod(origin.month - 1 + int(vec[idx]), 12)
+        ret[idx] = datetime.datetime(origin.year + year_offset, month_index + 1, month_centroid)
     return ret
 
 
@@ -947,8 +934,9 @@ def get_num_from_months_time_units(vec, units, dtype=None):
     """
 
     origin = get_origin_datetime_from_months_units(units)
-    ret = [get_difference_in_months(origin, target) for target in vec]
-    return np.array(ret, dtype=dtype)
+    vec = np.asanyarray(vec, dtype=object)
+    ret = [get_difference_in_months(origin, target) for target in vec.flat]
+    return np.array(ret, dtype=dtype).reshape(vec.shape)
 
 
 def get_origin_datetime_from_months_units(units):
@@ -964,18 +952,13 @@ def get_origin_datetime_from_months_units(units):
     """
 
     origin = ' '.join(units.split(' ')[2:])
-    to_try = ['%Y-%m', '%Y-%m-%d %H']
-    converted = False
+    to_try = ['%Y-%m', '%Y-%m-%d', '%Y-%m-%d %H', '%Y-%m-%d %H:%M', '%Y-%m-%d %H:%M:%S']
     for tt in to_try:
         try:
-            origin = datetime.datetime.strptime(origin, tt)
-            converted = True
-            break
-        except ValueError as e:
+            return datetime.datetime.strptime(origin, tt)
+        except ValueError:
             continue
-    if not converted:
-        raise e
-    return origin
+    raise ValueError('Origin not recognized in units: {}'.format(units))
 
 
 def get_sorted_seasons(seasons, method='max'):
-- 
2.43.0


From 0213a59be86209ee1baed8faa97b71736b6d5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 15/59] fix: round times to the closest second instead of
 dropping the fraction

---
 src/ocgis/variable/temporal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 7fa9de1..4758387 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -212,6 +212,9 @@ class TemporalVariable(SourcedVariable):
             dt = get_datetime_or_netcdftime
 
             for idx, t in iter_array(arr, return_value=True):
+                # Precision is limited to seconds. Round to the closest one.
+                if t.microsecond >= 500000:
+                    t = t + datetime.timedelta(seconds=1)
                 # Attempt to convert times to datetime objects.
                 try:
                     arr[idx] = dt(t.year, t.month, t.day, t.hour, t.minute, t.second)
-- 
2.43.0


From 9afb74eebcf7fa72f72ae93c09b7b59d48c0879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 16/59] fix: convert times when masked elements hold fill
 values

---
 src/ocgis/variable/temporal.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 4758387..8f34e13 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -116,8 +116,12 @@ class TemporalVariable(SourcedVariable):
             raise CannotFormatTimeError('value_datetime')
         if self._value_datetime is None:
             if get_datetime_conversion_state(self.get_value().flatten()[0]):
-                self._value_datetime = np.ma.array(self.get_datetime(self.get_value()), mask=self.get_mask(), ndmin=1,
-                                                   fill_value=None)
+                value, mask = self.get_value(), self.get_mask()
+                if mask is not None and mask.any():
+                    # Masked elements may hold values, like fill values, with no date.
+                    value = value.copy()
+                    value[mask] = 0
+                self._value_datetime = np.ma.array(self.get_datetime(value), mask=mask, ndmin=1, fill_value=None)
             else:
                 self._value_datetime = self.get_masked_value()
         return self._value_datetime
@@ -723,7 +727,12 @@ class TemporalVariable(SourcedVariable):
         if value is not None:
             value.calendar = self.calendar
 
+    def set_mask(self, mask, **kwargs):
+        super(TemporalVariable, self).set_mask(mask, **kwargs)
+        self._clear_converted_()
+
     def _set_units_(self, value):
+        self._clear_converted_()
         try:
             self.calendar = value.calendar
         except AttributeError:
-- 
2.43.0


From 25dcf7f7901c7fafcd6cb9fd10ddb7d667685c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 17/59] fix: forget converted times when value, mask, units or
 calendar change; keep the calendar when converting to a units string

---
 src/ocgis/variable/temporal.py | 42 ++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 8f34e13..e36dd12 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -12,6 +12,7 @@ from ocgis import netcdftime
 from ocgis.constants import HeaderName, KeywordArgument
 from ocgis.exc import EmptySubsetError, IncompleteSeasonError, CannotFormatTimeError, ResolutionError
 from ocgis.util.helpers import get_is_date_between, iter_array, get_none_or_slice
+from ocgis.util.units import get_units_object
 from ocgis.variable.base import SourcedVariable, get_attribute_property, set_attribute_property
 
 
@@ -69,9 +70,11 @@ class TemporalVariable(SourcedVariable):
 
     @calendar.setter
     def calendar(self, value):
+        self._clear_converted_()
         set_attribute_property(self, 'calendar', value)
         if self.has_bounds:
             set_attribute_property(self.bounds, 'calendar', value)
+        self._clear_converted_bounds_()
 
     @property
     def cfunits(self):
@@ -148,6 +151,10 @@ class TemporalVariable(SourcedVariable):
             ret = False
         return ret
 
+    def __setitem__(self, slc, variable):
+        super(TemporalVariable, self).__setitem__(slc, variable)
+        self._clear_converted_()
+
     def _as_record_(self, *args, **kwargs):
         add_parts = kwargs.pop('add_parts', True)
         pytype_primitives = kwargs.get('pytype_primitives', False)
@@ -173,6 +180,27 @@ class TemporalVariable(SourcedVariable):
                 ret[HeaderName.TEMPORAL_DAY] = None
         return ret
 
+    def _clear_converted_(self):
+        # Converted values are derived from the value, mask, units, and calendar. Remove them when one of these changes.
+        self._value_numtime = None
+        self._value_datetime = None
+        self._bounds_numtime = None
+        self._bounds_datetime = None
+
+    def _clear_converted_bounds_(self):
+        # Units and calendar are set on the bounds attributes directly.
+        if self.has_bounds and isinstance(self.bounds, TemporalVariable):
+            self.bounds._clear_converted_()
+
+    def cfunits_conform(self, to_units, from_units=None):
+        # Unit strings do not carry a calendar. The variable keeps its calendar when it is converted.
+        if isinstance(to_units, six.string_types):
+            to_units = get_units_object(to_units, calendar=self.calendar)
+        # Numeric bounds values depend on the units to convert from. Get those before the units change.
+        if self.has_bounds and isinstance(self.bounds, TemporalVariable):
+            self.bounds.set_value(self.bounds.value_numtime)
+        super(TemporalVariable, self).cfunits_conform(to_units, from_units=from_units)
+
     @classmethod
     def from_variable(cls, variable, format_time=True):
         """
@@ -706,14 +734,16 @@ class TemporalVariable(SourcedVariable):
         return ret
 
     def _get_to_conform_value_(self):
-        return self.value_numtime
+        # The mask does not change. Masked elements may hold fill values that cannot be converted.
+        value = self.value_numtime
+        ret = np.array(value.data)
+        is_fill = np.logical_or(ret == value.fill_value, ~np.isfinite(ret))
+        ret[np.logical_and(np.ma.getmaskarray(value), is_fill)] = 0
+        return ret
 
     def _set_to_conform_value_(self, value):
         # Wipe the original values.
-        self._value_numtime = None
-        self._value_datetime = None
-        self._bounds_numtime = None
-        self._bounds_datetime = None
+        self._clear_converted_()
         # Set the new value.
         self.set_value(value)
 
@@ -743,6 +773,7 @@ class TemporalVariable(SourcedVariable):
         if 'calendar=' in value:
             value = value.split('calendar=')[0].strip()
         super(TemporalVariable, self)._set_units_(value)
+        self._clear_converted_bounds_()
 
     def set_value(self, value, **kwargs):
         # Special handling for template units.
@@ -751,6 +782,7 @@ class TemporalVariable(SourcedVariable):
             # Update the units.
             self.units = constants.DEFAULT_TEMPORAL_UNITS
         super(TemporalVariable, self).set_value(value, **kwargs)
+        self._clear_converted_()
 
 
 class TemporalGroupVariable(TemporalVariable):
-- 
2.43.0


From 6af79a0d83edf07ad0573fdeb4af76be9735b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 18/59] fix: cell periods wrapping the year end also match
 months at the start of the year

---
 src/ocgis/util/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 92df8f4..2db871b 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -513,9 +513,10 @@ def get_is_date_between(lower, upper, month=None, year=None):
     part_lower, part_upper = getattr(lower, attr), getattr(upper, attr)
     if part_lower != part_upper:
         if part_lower > part_upper:
-            # in the case of a year overlap, increment the upper into another year by adding 12 months
-            part_upper += 12
-        ret = np.logical_and(to_test >= part_lower, to_test < part_upper)
+            # in the case of a year overlap, the months are the last ones of the first year or the first ones of the next
+            ret = np.logical_or(to_test >= part_lower, to_test < part_upper)
+        else:
+            ret = np.logical_and(to_test >= part_lower, to_test < part_upper)
     else:
         ret = np.logical_and(to_test >= part_lower, to_test <= part_upper)
 
-- 
2.43.0


From bdc29a055b6f9e715135e812467311c223b2988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 19/59] fix: judge contiguous bounds by any neighbouring rows
 and return indices of contiguous selections

---
 src/ocgis/variable/base.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 4e25e22..f897d23 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1163,15 +1163,10 @@ class Variable(AbstractContainer, Attributes):
         is_contiguous = False
         if self.has_bounds:
             bounds_value = self.bounds.get_value()
-            try:
-                if len(set(bounds_value[0, :]).intersection(set(bounds_value[1, :]))) > 0:
+            for row_idx in range(bounds_value.shape[0] - 1):
+                if len(set(bounds_value[row_idx, :]).intersection(set(bounds_value[row_idx + 1, :]))) > 0:
                     is_contiguous = True
-            except IndexError:
-                # There is likely not a second row.
-                if bounds_value.shape[0] == 1:
-                    pass
-                else:
-                    raise
+                    break
 
         # Subset operation when bounds are not present.
         if not self.has_bounds or not use_bounds:
@@ -1222,14 +1217,14 @@ class Variable(AbstractContainer, Attributes):
             else:
                 raise EmptySubsetError(origin=self.name)
         else:
+            indices = np.arange(select.shape[0])[select]
             slices = np.ma.clump_masked(np.ma.array(select, mask=select, dtype=bool))
             if len(slices) == 1:
                 select = slices[0]
             ret = self[select]
 
         if return_indices:
-            indices = np.arange(select.shape[0])
-            ret = (ret, indices[select])
+            ret = (ret, indices)
 
         return ret
 
-- 
2.43.0


From 9bdfd2ea551e56e8156f20b2511681483ffd678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 20/59] fix: an empty selection by function raises
 EmptySubsetError

---
 src/ocgis/variable/temporal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index e36dd12..3518b40 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -407,6 +407,8 @@ class TemporalVariable(SourcedVariable):
             bounds = None
 
         indices = np.array(func(self.value_datetime, bounds=bounds))
+        if indices.size == 0:
+            raise EmptySubsetError(origin='temporal')
         ret = self[indices]
         if return_indices:
             ret = (ret, indices)
-- 
2.43.0


From 40f853e4273f678475089fe3950f0b70506f9a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 21/59] fix: sort seasons with equal maximum months without
 dropping any

---
 src/ocgis/variable/temporal.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 3518b40..a46a06c 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1022,14 +1022,7 @@ def get_sorted_seasons(seasons, method='max'):
 
     methods = {'min': min, 'max': max}
 
-    season_map = {}
-    for ii, season in enumerate(seasons):
-        season_map[ii] = season
-    max_map = {}
-    for key, value in season_map.items():
-        max_map[methods[method](value)] = key
-    sorted_maxes = sorted(max_map)
-    ret = [seasons[max_map[s]] for s in sorted_maxes]
+    ret = sorted(seasons, key=methods[method])
     ret = deepcopy(ret)
     return ret
 
-- 
2.43.0


From f67b0356325fc142cfafc065641b12202b167cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 22/59] fix: interannual season regions need the next calendar
 year and all empty ones are removed

---
 src/ocgis/variable/temporal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index a46a06c..e138b27 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1047,7 +1047,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
         interannual_check = [False]
     if any(interannual_check):
         # loop over years first to ensure each year is accounted for in the time region output
-        for ii_year, year in enumerate(years):
+        for year in years:
             # the interannual flag is used internally for simple optimization
             for ic, cg in zip(interannual_check, seasons):
                 # if no exception is raised for an incomplete season, this flag indicate whether to append to the output
@@ -1065,12 +1065,12 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                     # will hold the sub-element time regions
                     sub_time_region = []
                     for ii_split, s in enumerate(split):
-                        try:
-                            to_append_sub = {'year': [years[ii_year + ii_split]], 'month': s.tolist()}
+                        if year + ii_split in years:
+                            to_append_sub = {'year': [year + ii_split], 'month': s.tolist()}
                             sub_time_region.append(to_append_sub)
                         # there may not be another year of data for an interannual season. we DO NOT keep incomplete
                         # seasons.
-                        except IndexError:
+                        else:
                             # don't just blow through an incomplete season unless asked to
                             if raise_if_incomplete:
                                 raise IncompleteSeasonError(None, None, None)
@@ -1095,7 +1095,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                 td.get_time_region(sub_time_region)
         except EmptySubsetError:
             remove.append(idx)
-    for xx in remove:
+    for xx in reversed(remove):
         time_regions.pop(xx)
 
     return time_regions
-- 
2.43.0


From 5bfcfe8b67dad5e71c5ba6c9b93c342d0ffb9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 23/59] fix: name the season and year when an interannual
 season is incomplete

---
 src/ocgis/variable/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index e138b27..a08c1e2 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1073,7 +1073,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                         else:
                             # don't just blow through an incomplete season unless asked to
                             if raise_if_incomplete:
-                                raise IncompleteSeasonError(None, None, None)
+                                raise IncompleteSeasonError(cg, year=year)
                             else:
                                 append_to_time_regions = False
                                 continue
-- 
2.43.0


From 36db8d66ca9fd1da4f8e564f470efbc7a1c80622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 24/59] fix: seasons without data do not form a temporal group

---
 src/ocgis/variable/temporal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index a08c1e2..f1bd38d 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -602,8 +602,10 @@ class TemporalVariable(SourcedVariable):
                     else:
                         if parts[idx, 1] in season:
                             subgroup[idx] = True
-                dgroups.append(subgroup)
-                grouping_season.append([season, year])
+                # Seasons without data do not form a group.
+                if subgroup.any():
+                    dgroups.append(subgroup)
+                    grouping_season.append([season, year])
             dtype = [('months', object), ('year', int)]
             grouping = grouping_season
 
-- 
2.43.0


From 9feb61b2bedc0fc7852959c1c7630c2d3c7ab543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 25/59] fix: representative dates of seasons fall in the season
 and its year

---
 src/ocgis/variable/temporal.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index f1bd38d..1559730 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -691,8 +691,12 @@ class TemporalVariable(SourcedVariable):
                     middle_index = int(np.floor(len(r_value_months) / 2))
                     center_month = r_value_months[middle_index]
                 else:
-                    center_month = int(np.floor(np.mean([r_bounds[0].month, r_bounds[1].month])))
-                center_year = int(np.floor(np.mean([r_bounds[0].year, r_bounds[1].year])))
+                    # The upper bound may be in a month following the season.
+                    center_month = sorted(r_value_months)[(len(r_value_months) - 1) // 2]
+                # The year of the group is known if the seasons are split by years.
+                center_year = grouping[idx][1]
+                if center_year is None:
+                    center_year = int(np.floor(np.mean([r_bounds[0].year, r_bounds[1].year])))
                 fill = get_datetime_or_netcdftime(center_year, center_month, constants.CALC_MONTH_CENTROID)
                 ret[idx] = fill
         return ret
@@ -723,7 +727,9 @@ class TemporalVariable(SourcedVariable):
                                                                  raise_if_incomplete=False):
             dgroups.append(dgroup)
             sub_value_datetime = sub.value_datetime
-            new_bounds = np.vstack((new_bounds, [min(sub_value_datetime), max(sub_value_datetime)]))
+            # Bounds are given preference if they are available.
+            sub_extent = sub.bounds.value_datetime.flatten() if sub.has_bounds else sub_value_datetime
+            new_bounds = np.vstack((new_bounds, [min(sub_extent), max(sub_extent)]))
             repr_dt = np.append(repr_dt, sub_value_datetime[int(sub.shape[0] / 2)])
         # no date parts yet...
         date_parts = None
-- 
2.43.0


From 77037fdab2b7aca690b71f2991874da07f32a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 26/59] fix: bounds of unique seasons cover the bounds of their
 times

---
 src/ocgis/variable/temporal.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 1559730..3c17643 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1129,7 +1129,14 @@ def iter_boolean_groups_from_time_regions(time_regions, tvar, yield_subset=False
         is_complete = True
         idx_append = np.array([], dtype=int)
         for time_region in sub_time_regions:
-            sub, idx = tvar.get_time_region(time_region, return_indices=True)
+            try:
+                sub, idx = tvar.get_time_region(time_region, return_indices=True)
+            except EmptySubsetError:
+                # No cell periods are in the time region.
+                if raise_if_incomplete:
+                    raise IncompleteSeasonError(time_region, month=time_region['month'][0])
+                is_complete = False
+                continue
             # insert a check to ensure there are months present for each time region
             months = set([d.month for d in sub.value_datetime])
             try:
-- 
2.43.0


From fef75a6a1293845ca457cbc4078634e643c93169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 27/59] fix: masked bounds are reported as missing when
 iterating

---
 src/ocgis/variable/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index f897d23..3eddede 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1328,9 +1328,14 @@ class Variable(AbstractContainer, Attributes):
                 bounds_value = self.bounds._get_iter_value_()
                 min_index, max_index = get_bounds_order_1d(bounds_value)
                 lb_name, ub_name = get_bounds_names_1d(self.name)
-                lower_bounds = self.__class__(name=lb_name, value=bounds_value[:, min_index],
+                bounds_mask = self.bounds.get_mask()
+                if bounds_mask is None:
+                    lower_mask, upper_mask = None, None
+                else:
+                    lower_mask, upper_mask = bounds_mask[:, min_index], bounds_mask[:, max_index]
+                lower_bounds = self.__class__(name=lb_name, value=bounds_value[:, min_index], mask=lower_mask,
                                               dimensions=self.dimensions)
-                upper_bounds = self.__class__(name=ub_name, value=bounds_value[:, max_index],
+                upper_bounds = self.__class__(name=ub_name, value=bounds_value[:, max_index], mask=upper_mask,
                                               dimensions=self.dimensions)
                 followers = [lower_bounds, upper_bounds]
         else:
@@ -2405,7 +2410,10 @@ def create_typed_variable_from_data_model(string_name, data_model=None, **kwargs
 
 
 def get_bounds_order_1d(bounds):
-    min_index = np.argmin(bounds[0, :])
+    # Hidden bounds may not be ordered.
+    visible = np.flatnonzero(~np.ma.getmaskarray(bounds).any(axis=1))
+    row = bounds[visible[0] if visible.size > 0 else 0, :]
+    min_index = np.argmin(row)
     max_index = np.abs(min_index - 1)
     return min_index, max_index
 
-- 
2.43.0


From e8b6066e635ceb635701a6b68f5f7ced40456566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 28/59] fix: iterate variables with bounds without adding the
 bounds

---
 src/ocgis/variable/base.py     | 2 +-
 src/ocgis/variable/temporal.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 3eddede..1382c22 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1353,7 +1353,7 @@ class Variable(AbstractContainer, Attributes):
 
         itr = Iterator(self, **kwargs)
 
-        if self.has_bounds:
+        if itr.followers is not None:
             for f in itr.followers:
                 f.formatter = formatter
 
diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 3c17643..acf6858 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -310,7 +310,7 @@ class TemporalVariable(SourcedVariable):
         ret = super(TemporalVariable, self).get_iter(**kwargs)
         if driver is not None:
             ret.formatter = driver.iterator_formatter_time_value
-            if self.has_bounds:
+            if ret.followers is not None:
                 for follower in ret.followers:
                     follower.formatter = driver.iterator_formatter_time_bounds
         return ret
-- 
2.43.0


From d10b6efeb1b5bd61a9c4fc174bc86ffc81b5249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 29/59] fix: iterating does not change the repeaters of
 variables or callers

---
 src/ocgis/variable/base.py     | 6 +-----
 src/ocgis/variable/iterator.py | 5 +++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 1382c22..0b69290 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1636,12 +1636,8 @@ class SourcedVariable(Variable):
         ret = super(SourcedVariable, self).get_iter(**kwargs)
 
         if self._request_dataset is not None:
-            repeaters = ret.repeaters
             did_record = (HeaderName.DATASET_IDENTIFER, self._request_dataset.uid)
-            if repeaters is None:
-                ret.repeaters = [did_record]
-            else:
-                repeaters.insert(did_record)
+            ret.repeaters = [did_record] + list(ret.repeaters or [])
 
         return ret
 
diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index 03039b2..01c237b 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -25,7 +25,8 @@ class Iterator(AbstractOcgisObject):
             if repeaters is None:
                 repeaters = variable.repeat_record
             else:
-                repeaters += variable.repeat_record
+                # Do not modify the repeaters of the caller or the variable.
+                repeaters = list(repeaters) + [r for r in variable.repeat_record if r not in repeaters]
         self.repeaters = repeaters
 
         self._is_lead = True
@@ -146,7 +147,7 @@ class Iterator(AbstractOcgisObject):
                 try:
                     yld_value, yld_mask = get_record(idx, value, mask)
                 except IndexError as e:
-                    msg = 'Current iteration variable is: "{}". {}'.format(name, e.message)
+                    msg = 'Current iteration variable is: "{}". {}'.format(name, e)
                     raise IndexError(msg)
 
                 if yld_mask and clobber_masked:
-- 
2.43.0


From d92e34bb805c990ba395f86e5bac74d7152eb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 30/59] fix: iterating does not change a given list of
 followers

---
 src/ocgis/collection/field.py | 1 +
 src/ocgis/variable/base.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 2914269..a886f9b 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -667,6 +667,7 @@ class Field(VariableCollection):
         if followers is None:
             followers = []
         else:
+            followers = list(followers)
             for ii, f in enumerate(followers):
                 if not isinstance(f, Iterator):
                     followers[ii] = get_variables(f, self)[0]
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 0b69290..b45d714 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2091,6 +2091,7 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
             if not isinstance(variable, Iterator):
                 variable = get_variables(variable, self)[0]
             if followers is not None:
+                followers = list(followers)
                 for ii, f in enumerate(followers):
                     if not isinstance(f, Iterator):
                         followers[ii] = get_variables(f, self)[0]
-- 
2.43.0


From e79edebd232479e1ae31620c61a8836ee417d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 31/59] fix: frequency percentile uses the unmasked values of
 each series only

---
 src/ocgis/calc/library/statistics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 42629ae..e676741 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -366,8 +366,16 @@ class FrequencyPercentile(base.AbstractUnivariateSetFunction, base.AbstractParam
         :type percentile: float on the interval [0,100]
         """
 
-        ret = np.percentile(values, percentile, axis=0)
-        ret = np.ma.array(ret, mask=values.mask[0, :, :])
+        mask = np.ma.getmaskarray(values)
+        all_masked = mask.all(axis=0)
+        if mask.any():
+            # Masked values do not contribute to the percentile.
+            to_use = np.ma.array(values, dtype=float).filled(np.nan)
+            to_use[:, all_masked] = 0.
+            ret = np.nanpercentile(to_use, percentile, axis=0)
+        else:
+            ret = np.percentile(values.data, percentile, axis=0)
+        ret = np.ma.array(ret, mask=all_masked)
         return ret
 
 
-- 
2.43.0


From a0901dfe4e2cb228a4e6f79bec01f23d7ecf6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 32/59] fix: statistics of integer data are not truncated to
 integers

---
 src/ocgis/calc/base.py               | 3 +++
 src/ocgis/calc/library/math.py       | 3 +++
 src/ocgis/calc/library/statistics.py | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 5285ce7..4dd9e1c 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -202,6 +202,9 @@ class AbstractFunction(AbstractOcgisObject):
         if dtype is None:
             if self.dtype is None:
                 dtype = archetype.dtype
+                # Floating point results may not be stored in an integer type.
+                if self.dtype_default == 'float' and np.issubdtype(dtype, np.integer):
+                    dtype = self.get_default_dtype()
             else:
                 dtype = self.get_default_dtype()
 
diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 310954e..5591f3c 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -34,6 +34,9 @@ class Sum(base.AbstractUnivariateSetFunction):
     key = 'sum'
     description = 'Compute the algebraic sum of a series.'
 
+    # The sum of integers is an integer.
+    dtype_default = None
+
     standard_name = 'sum'
     long_name = 'Sum'
 
diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index e676741..f713e51 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -383,6 +383,9 @@ class Max(base.AbstractUnivariateSetFunction):
     description = 'Max value for the series.'
     key = 'max'
 
+    # The result is one of the input values.
+    dtype_default = None
+
     standard_name = 'max'
     long_name = 'max'
 
@@ -394,6 +397,9 @@ class Min(base.AbstractUnivariateSetFunction):
     description = 'Min value for the series.'
     key = 'min'
 
+    # The result is one of the input values.
+    dtype_default = None
+
     standard_name = 'min'
     long_name = 'Min'
 
-- 
2.43.0


From 50638f33f5257fbaa0eaf33e718d44b19f50a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 33/59] fix: resolution of coordinates crossing zero

---
 src/ocgis/driver/nc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 5f4e864..2515af6 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -376,12 +376,12 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
             resolution_limit = constants.RESOLUTION_LIMIT
             is_vectorized = value.ndim == 1
             if is_vectorized:
-                target = np.abs(np.diff(np.abs(value[0:resolution_limit])))
+                target = np.abs(np.diff(value[0:resolution_limit]))
             else:
                 if axis == 0:
-                    target = np.abs(np.diff(np.abs(value[:, 0:resolution_limit]), axis=axis))
+                    target = np.abs(np.diff(value[:, 0:resolution_limit], axis=axis))
                 elif axis == 1:
-                    target = np.abs(np.diff(np.abs(value[0:resolution_limit, :]), axis=axis))
+                    target = np.abs(np.diff(value[0:resolution_limit, :], axis=axis))
                 else:
                     raise NotImplementedError(axis)
             ret = np.mean(target)
-- 
2.43.0


From 2aa387d7be4ba2bfba80916c58a0c22cc077f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 34/59] fix: subset of a one-dimensional geometry variable
 keeping every element

---
 src/ocgis/variable/geom.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index d468d44..2a50b19 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1237,8 +1237,7 @@ def get_masking_slice(intersects_mask_value, target, apply_slice=True):
         if intersects_mask_value.all():
             local_slice = None
         elif not intersects_mask_value.any():
-            shp = intersects_mask_value.shape
-            local_slice = [(0, shp[0]), (0, shp[1])]
+            local_slice = [(0, size) for size in intersects_mask_value.shape]
         else:
             _, local_slice = get_trimmed_array_by_mask(intersects_mask_value, return_adjustments=True)
             local_slice = [(l.start, l.stop) for l in local_slice]
-- 
2.43.0


From b57218b703c1bcd4a394f624e03eb5e3b4b03e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 35/59] fix: default touch rule also applies when clipping
 geometries

---
 src/ocgis/spatial/spatial_subset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/spatial_subset.py b/src/ocgis/spatial/spatial_subset.py
index fb53302..66269fe 100644
--- a/src/ocgis/spatial/spatial_subset.py
+++ b/src/ocgis/spatial/spatial_subset.py
@@ -111,12 +111,14 @@ class SpatialSubsetOperation(AbstractOcgisObject):
         # Prepare the target field.
         self._prepare_target_()
 
+        # Geometries only touching the selection geometry are not kept by default.
+        if self.field.grid is None and keep_touches == 'auto':
+            keep_touches = False
+
         # execute the spatial operation
         slc = None
         if operation == 'intersects':
             if self.field.grid is None:
-                if keep_touches == 'auto':
-                    keep_touches = False
                 ret = self.field.geom.get_intersects(base_geometry, use_spatial_index=use_spatial_index,
                                                      cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
                 if return_slice:
-- 
2.43.0


From 0023df3a4e0e555cd5f1401db2b2dec3226cef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 36/59] fix: grid subset finds cells reaching further than the
 mean resolution and single cells

---
 src/ocgis/spatial/grid.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index c57b6e0..14e9c77 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -635,7 +635,14 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         if original_mask is None:
             if not optimized_bbox_subset:
-                buffer_value = self.resolution * 1.25
+                buffer_value = 0. if self.shape == (1, 1) else self.resolution * 1.25
+                if use_bounds:
+                    # The limits of a cell may be further from its coordinate than suggested by the mean resolution.
+                    for cvar in [self.x, self.y]:
+                        reach = cvar.bounds.get_masked_value() - cvar.get_masked_value()[..., np.newaxis]
+                        reach = np.ma.max(np.ma.abs(reach))
+                        if reach is not np.ma.masked:
+                            buffer_value = max(buffer_value, reach * 1.25)
 
             if isinstance(subset_geom, BaseMultipartGeometry):
                 geom_itr = subset_geom
@@ -643,9 +650,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                 geom_itr = [subset_geom]
 
             for ctr, geom in enumerate(geom_itr):
+                hint_bounds = geom.bounds
                 if not optimized_bbox_subset:
-                    geom = geom.buffer(buffer_value).envelope
-                single_hint_mask = get_hint_mask_from_geometry_bounds(self, geom.bounds, invert=False,
+                    minx, miny, maxx, maxy = hint_bounds
+                    hint_bounds = (minx - buffer_value, miny - buffer_value, maxx + buffer_value, maxy + buffer_value)
+                single_hint_mask = get_hint_mask_from_geometry_bounds(self, hint_bounds, invert=False,
                                                                       no_touching=no_touching)
 
                 if ctr == 0:
-- 
2.43.0


From 44964d94611785d7300448995b7d114e5b4b089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 37/59] fix: bounding box subset keeps the mask of the grid

---
 src/ocgis/spatial/grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 14e9c77..a73203d 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -677,7 +677,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         if optimized_bbox_subset:
             if original_mask is not None and original_mask.any():
                 # TODO: OPTIMIZE: Can we avoid the cascade? There is no reason to cascade the mask if it is going to be sliced off anyway.
-                ret.set_mask(original_mask, cascade=True)
+                # Elements masked before the subset remain masked.
+                set_mask = original_mask
+                if original_grid_has_mask:
+                    set_mask = np.logical_or(self.get_mask(), original_mask)
+                ret.set_mask(set_mask, cascade=True)
             sliced_grid, _, the_slice = get_masking_slice(original_mask, ret, apply_slice=apply_slice)
             sliced_grid_mask = sliced_grid.get_mask()
             if not original_grid_has_mask and sliced_grid_mask is not None and not sliced_grid_mask.any():
-- 
2.43.0


From 45a7d1ec76cc9959cc7430ebca0ba338fd680c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 38/59] fix: default fill values of small integers are outside
 the range of common data

---
 src/ocgis/variable/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index b45d714..611ef57 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2423,7 +2423,14 @@ def get_default_fill_value_from_dtype(dtype):
     if dtype is None or isinstance(dtype, ObjectType):
         ret = None
     else:
-        ret = np.ma.array([1], dtype=dtype).get_fill_value()
+        dtype = np.dtype(dtype)
+        if dtype.kind in 'iu' and dtype.itemsize < 4:
+            # The default integer fill value does not fit. It would turn into a value within the range of common data.
+            # These are the netCDF defaults.
+            info = np.iinfo(dtype)
+            ret = info.max if dtype.kind == 'u' else info.min + 1
+        else:
+            ret = np.ma.array([1], dtype=dtype).get_fill_value()
         ret = np.array([ret], dtype=dtype)[0]
     return ret
 
-- 
2.43.0


From cfa2a6a2ff87024bc747a2b204470df1a980f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 39/59] fix: every unlimited dimension is converted to a fixed
 size on request

---
 src/ocgis/driver/nc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 2515af6..18a144e 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -113,7 +113,6 @@ class DriverNetcdf(AbstractDriver):
                 for idx, d in enumerate(dimensions):
                     if d.is_unlimited and unlimited_to_fixed_size:
                         dimensions[idx] = Dimension(d.name, size=var.shape[idx])
-                        break
                 # Create the dimensions.
                 for dim in dimensions:
                     create_dimension_or_pass(dim, dataset, write_mode=write_mode)
-- 
2.43.0


From 0bb1bccd2962f4b46e830f59c90f9ace3ecdd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 40/59] fix: data packed with an offset only is unpacked,
 attributes of packed values are not passed on

---
 src/ocgis/driver/nc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 18a144e..76b2bea 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -607,6 +607,9 @@ def init_variable_using_metadata_for_netcdf(variable, metadata):
         # Offset and scale factors are not supported by OCGIS. The data is unpacked when written to a new output file.
         # TODO: Consider supporting offset and scale factors for write operations.
         exclude = ['add_offset', 'scale_factor']
+        if var.get('dtype_packed') is not None:
+            # These attributes refer to the packed values.
+            exclude += ['missing_value', 'valid_min', 'valid_max', 'valid_range']
         for k, v in list(var.get('attrs', {}).items()):
             if k in exclude:
                 continue
@@ -849,8 +852,10 @@ def update_group_metadata(rootgrp, fill):
             subvar.update({attr: getattr(value, attr)})
 
         # Remove scale factors and offsets from the metadata.
-        if 'scale_factor' in subvar:
-            dtype_packed = value[0].dtype
+        if 'scale_factor' in subvar or 'add_offset' in subvar:
+            # The data type following the unpacking done by the netCDF library.
+            dtype_packed = np.result_type(value.dtype, *[np.asarray(subvar[k]).dtype for k in
+                                                         ('scale_factor', 'add_offset') if k in subvar])
             fill_value_packed = np.ma.array([], dtype=dtype_packed).fill_value
         else:
             dtype_packed = None
-- 
2.43.0


From 228e02f8699dbb15592939efe0f65d0815000864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 41/59] fix: strings of any number of dimensions, masked
 strings and characters are written whole; fill value after unpacking

---
 src/ocgis/driver/nc.py     | 86 +++++++++++++++++++++++++++++---------
 src/ocgis/variable/base.py | 10 +++--
 2 files changed, 73 insertions(+), 23 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 76b2bea..d449873 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -20,7 +20,8 @@ from ocgis.exc import ProjectionDoesNotMatch, PayloadProtectedError, NoDataVaria
     GridDeficientError
 from ocgis.util.helpers import itersubclasses, get_iter, get_formatted_slice, get_by_key_list, is_auto_dtype, get_group
 from ocgis.util.logging_ocgis import ocgis_lh
-from ocgis.variable.base import SourcedVariable, ObjectType, get_slice_sequence_using_local_bounds
+from ocgis.variable.base import SourcedVariable, ObjectType, get_default_fill_value_from_dtype, \
+    get_slice_sequence_using_local_bounds
 from ocgis.variable.crs import CFCoordinateReferenceSystem, CoordinateReferenceSystem, CFRotatedPole, CFSpherical, \
     AbstractProj4CRS
 from ocgis.variable.dimension import Dimension
@@ -96,18 +97,20 @@ class DriverNetcdf(AbstractDriver):
             dimensions = var.dimensions
 
             dtype = cls.get_variable_write_dtype(var)
-            if isinstance(dtype, ObjectType):
-                dtype = dtype.create_vltype(dataset, dimensions[0].name + '_VLType')
             # Assume we are writing string data if the data type is object.
-            elif dtype == str or var.is_string_object:
+            is_text = is_text_variable(var)
+            if is_text or is_character_variable(var):
                 dtype = 'S1'
+            elif isinstance(dtype, ObjectType):
+                dtype = dtype.create_vltype(dataset, dimensions[0].name + '_VLType')
+
+            # Special handling for string variables. The characters have their own dimension.
+            if is_text:
+                max_length = var.string_max_length_global
+                assert max_length is not None
+                dimensions = tuple(dimensions) + (Dimension('{}_ocgis_slen'.format(var.name), max(max_length, 1)),)
 
             if len(dimensions) > 0:
-                # Special handling for string variables.
-                if dtype == 'S1':
-                    max_length = var.string_max_length_global
-                    assert max_length is not None
-                    dimensions = [var.dimensions[0], Dimension('{}_ocgis_slen'.format(var.name), max_length)]
                 dimensions = list(dimensions)
                 # Convert the unlimited dimension to fixed size if requested.
                 for idx, d in enumerate(dimensions):
@@ -122,7 +125,10 @@ class DriverNetcdf(AbstractDriver):
             if has_masked_values is None:
                 has_masked_values = var.has_masked_values
             is_nc3 = dataset.data_model.startswith('NETCDF3')
-            if ((len(dimensions) > 0 and has_masked_values) and (
+            if dtype == 'S1':
+                # Masked strings are written using the default fill for characters.
+                fill_value = None
+            elif ((len(dimensions) > 0 and has_masked_values) and (
                     write_mode == MPIWriteMode.TEMPLATE or not file_only)) or (
                     is_nc3 and not var.has_allocated_value and len(
                 dimensions) > 0) or (env.USE_NETCDF4_MPI and var.has_mask and vm.size > 1):
@@ -144,7 +150,7 @@ class DriverNetcdf(AbstractDriver):
 
         # Do not fill values on file_only calls. Also, only fill values for variables with dimension greater than zero.
         if not file_only and not var.is_empty and not isinstance(var, CoordinateReferenceSystem):
-            if not var.is_string_object and isinstance(var.dtype, ObjectType) and not isinstance(var, TemporalVariable):
+            if not is_text_variable(var) and isinstance(var.dtype, ObjectType) and not isinstance(var, TemporalVariable):
                 bounds_local = var.dimensions[0].bounds_local
                 for idx in range(bounds_local[0], bounds_local[1]):
                     ncvar[idx] = np.array(var.get_value()[idx - bounds_local[0]])
@@ -153,15 +159,9 @@ class DriverNetcdf(AbstractDriver):
                 data_value = cls.get_variable_write_value(var)
                 # Only write allocated values.
                 if data_value is not None:
-                    if var.dtype == str or var.is_string_object:
-                        for idx in range(fill_slice[0].start, fill_slice[0].stop):
-                            try:
-                                curr_value = data_value[idx - fill_slice[0].start]
-                            except Exception as e:
-                                msg = "Variable name is '{}'. Original message: ".format(var.name) + str(e)
-                                raise e.__class__(msg)
-                            for sidx, sval in enumerate(curr_value):
-                                ncvar[idx, sidx] = sval
+                    if is_text_variable(var):
+                        slen = ncvar.shape[-1]
+                        ncvar.__setitem__(fill_slice + [slice(0, slen)], get_characters_from_text(data_value, slen))
                     elif var.ndim == 0:
                         ncvar[:] = data_value
                     else:
@@ -661,6 +661,52 @@ def get_value_from_request_dataset(variable):
                 # Older versions of netcdf4-python do not support the calendar argument.
                 ncvar = MFTime(ncvar, units=variable.units)
         ret = get_variable_value(ncvar, variable.dimensions)
+        if isinstance(ret, six.string_types):
+            # The netCDF library returns scalar strings as Python strings.
+            ret = np.array(ret, dtype=object)
+        elif isinstance(ret, np.ma.MaskedArray) and ret.ndim > 0 and \
+                {'scale_factor', 'add_offset'}.intersection(ncvar.ncattrs()):
+            # The fill value in the source belongs to the packed values.
+            ret = np.ma.array(ret.data, mask=ret.mask, fill_value=get_default_fill_value_from_dtype(ret.dtype))
+    return ret
+
+
+def is_character_variable(var):
+    """``True`` if the variable's elements are single characters (i.e. character data read from a file)."""
+    dtype = var.dtype
+    return not isinstance(dtype, ObjectType) and dtype is not None and np.dtype(dtype) == np.dtype('S1')
+
+
+def is_text_variable(var):
+    """``True`` if the variable's elements are strings."""
+    if is_character_variable(var):
+        return False
+    dtype = var.dtype
+    return var.is_string_object or (not isinstance(dtype, ObjectType) and dtype is not None and np.dtype(dtype).kind in 'US')
+
+
+def get_characters_from_text(value, slen):
+    """
+    Convert an array of strings to an array of characters with an additional trailing dimension. Masked elements have no
+    characters.
+
+    :param value: Array of strings.
+    :type value: :class:`numpy.ndarray` | :class:`numpy.ma.MaskedArray`
+    :param int slen: Size of the trailing dimension.
+    :rtype: :class:`numpy.ndarray`
+    """
+    mask = np.ma.getmaskarray(value)
+    value = np.ma.getdata(value)
+    ret = np.zeros(value.shape + (slen,), dtype='S1')
+    for idx in np.ndindex(*value.shape):
+        if not mask[idx]:
+            text = value[idx]
+            if isinstance(text, six.text_type):
+                text = text.encode('utf-8')
+            if len(text) > slen:
+                raise ValueError('String too long for its character dimension: {}'.format(text))
+            for sidx in range(len(text)):
+                ret[idx + (sidx,)] = text[sidx:sidx + 1]
     return ret
 
 
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 611ef57..72b5a5c 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -623,8 +623,9 @@ class Variable(AbstractContainer, Attributes):
         ret = False
         dtype = self.dtype
         if is_string(dtype):
-            if len(self.dimensions) > 0:
-                archetype = self.get_value().flatten()[0]
+            value = self.get_value()
+            if value is not None and value.size > 0:
+                archetype = value.flatten()[0]
                 if is_string(type(archetype)):
                     ret = True
         return ret
@@ -1473,7 +1474,10 @@ class Variable(AbstractContainer, Attributes):
         """
 
         if value is None and self.is_string_object:
-            local_max = max([len(e) for e in self.get_value()])
+            value = self.get_value()
+            if value.dtype != np.dtype('S1'):
+                value = value.flatten()
+            local_max = max([len(e.encode('utf-8')) if isinstance(e, six.text_type) else len(e) for e in value])
             rank_maxes = vm.gather(local_max)
             if vm.rank == 0:
                 res = max(rank_maxes)
-- 
2.43.0


From cb89622021de3970bc7eff4c755901801db91526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 42/59] fix: tabular reads follow the sliced rows and leave
 values in memory alone

---
 src/ocgis/driver/base.py   | 22 +++++++++++++
 src/ocgis/driver/csv_.py   | 51 +++++++++++++++++------------
 src/ocgis/driver/vector.py | 67 +++++++++++++-------------------------
 3 files changed, 76 insertions(+), 64 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index ffed92b..7cd6ff9 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -870,6 +870,28 @@ class AbstractDriver(AbstractOcgisObject):
         """
 
 
+def get_variables_to_load(variable):
+    """
+    Get the variables to load from source in a single pass with ``variable``: the variable itself and those variables in
+    its parent collection waiting for their values from the same source.
+
+    :param variable: The variable requesting its value.
+    :type variable: :class:`~ocgis.SourcedVariable`
+    :rtype: list
+    """
+    if variable.parent is None:
+        return [variable]
+    ret = []
+    for v in variable.parent.values():
+        if v is not variable:
+            if not isinstance(v, SourcedVariable) or v.is_empty or v.dimension_names != variable.dimension_names:
+                continue
+            if v._request_dataset is not variable._request_dataset or v._has_initialized_value or v._value is not None:
+                continue
+        ret.append(v)
+    return ret
+
+
 def get_archetype_record(vc, find_values=False, **iter_kwargs):
     """
     Get a record having the names (and values) of the records yielded by a collection. The call is collective across the
diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index 7972181..9501e2c 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -4,8 +4,9 @@ from collections import OrderedDict
 import six
 from ocgis import vm
 from ocgis.base import raise_if_empty
-from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey
-from ocgis.driver.base import driver_scope, AbstractTabularDriver, get_archetype_record
+from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey, SourceIndexType
+from ocgis.driver.base import driver_scope, AbstractTabularDriver, get_archetype_record, get_variables_to_load
+from ocgis.variable.base import variable_get_zeros
 
 
 class DriverCSV(AbstractTabularDriver):
@@ -18,26 +19,36 @@ class DriverCSV(AbstractTabularDriver):
     common_extension = 'csv'
 
     def get_variable_value(self, variable):
-        # For CSV files, it makes sense to load all variables from source simultaneously.
-        if variable.parent is None:
-            to_load = [variable]
+        # For CSV files, it makes sense to load all variables from source simultaneously. Only the variables waiting for
+        # their values are loaded.
+        to_load = get_variables_to_load(variable)
+
+        # The source rows of each element.
+        dimension = variable.dimensions[0]
+        if dimension._src_idx_type is None:
+            rows = range(*dimension.bounds_local)
+        elif dimension._src_idx_type == SourceIndexType.BOUNDS:
+            rows = range(*dimension._src_idx)
         else:
-            to_load = list(variable.parent.values())
+            rows = dimension._src_idx
+        targets = {}
+        for target, row in enumerate(rows):
+            targets.setdefault(int(row), []).append(target)
 
+        values = [variable_get_zeros(tl.dimensions, tl.dtype) for tl in to_load]
         with driver_scope(self) as f:
-            reader = csv.DictReader(f)
-            bounds_local = variable.dimensions[0].bounds_local
-            for idx, row in enumerate(reader):
-                if idx < bounds_local[0]:
-                    continue
-                else:
-                    if idx >= bounds_local[1]:
-                        break
-                for tl in to_load:
-                    if not tl.has_allocated_value:
-                        tl.allocate_value()
-                    tl.get_value()[idx - bounds_local[0]] = row[tl.name]
-        return variable.get_value()
+            for idx, row in enumerate(csv.DictReader(f)):
+                for target in targets.get(idx, []):
+                    for tl, value in zip(to_load, values):
+                        value[target] = row[tl.source_name]
+
+        ret = None
+        for tl, value in zip(to_load, values):
+            if tl is variable:
+                ret = value
+            else:
+                tl.set_value(value, update_mask=True)
+        return ret
 
     def _get_metadata_main_(self):
         with driver_scope(self) as f:
@@ -51,7 +62,7 @@ class DriverCSV(AbstractTabularDriver):
             meta['dimensions'] = OrderedDict()
             for varname in variable_names:
                 meta['variables'][varname] = {'name': varname, 'dtype': object, 'dimensions': ('n_records',)}
-            meta['dimensions']['n_records'] = {'name': 'n_records', 'size': sum(1 for _ in f)}
+            meta['dimensions']['n_records'] = {'name': 'n_records', 'size': sum(1 for row in reader if row)}
         return meta
 
     @classmethod
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index acbdd65..d87b740 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -7,7 +7,7 @@ import fiona
 import numpy as np
 from ocgis import constants, vm
 from ocgis.constants import MPIWriteMode, DimensionName, KeywordArgument, DriverKey, DMK, SourceIndexType, VariableName
-from ocgis.driver.base import driver_scope, AbstractTabularDriver, get_archetype_record
+from ocgis.driver.base import driver_scope, AbstractTabularDriver, get_archetype_record, get_variables_to_load
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.environment import get_dtype
 from ocgis.exc import RequestableFeature
@@ -34,19 +34,13 @@ class DriverVector(AbstractTabularDriver):
     def init_variable_value(self, variable):
         value = self.get_variable_value(variable)
 
-        if variable.parent is None:
-            variable.set_value(list(value.values())[0])
-        else:
-            for k, v in list(value.items()):
-                variable.parent[k].set_value(v)
+        # Values already in memory are not touched.
+        to_load = get_variables_to_load(variable)
+        for v in to_load:
+            v.set_value(value[v.name], update_mask=True)
 
         # Conform the units if requested.
-        for k in list(value.keys()):
-            if variable.parent is None:
-                v = variable
-            else:
-                v = variable.parent[k]
-
+        for v in to_load:
             try:
                 conform_units_to = self.rd.metadata['variables'][v.source_name].get('conform_units_to')
             except KeyError:
@@ -120,40 +114,25 @@ class DriverVector(AbstractTabularDriver):
             if as_geometry_iterator:
                 return (row['geom'] for row in g)
 
-            ret = {}
-            if variable.parent is None:
-                ret[variable.name] = np.zeros(variable.shape, dtype=variable.dtype)
-                for idx, row in enumerate(g):
-                    ret[variable.name][idx] = row['properties'][variable.name]
-            else:
-                ret = {}
-                # Initialize the variable data as zero arrays.
-                for v in list(variable.parent.values()):
-                    if not isinstance(v, CoordinateReferenceSystem):
-                        ret[v.name] = np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False)
-                # Fill those arrays.
-                for idx, row in enumerate(g):
-                    for dv in list(variable.parent.values()):
-                        if isinstance(dv, (CoordinateReferenceSystem, GeometryVariable)):
-                            continue
-                        dv = dv.name
-                        try:
-                            ret[dv][idx] = row['properties'][dv]
-                        except TypeError:
-                            # Property value may be none. Set the data to masked if this is the case.
-                            if row['properties'][dv] is None:
-                                ret[dv].mask[idx] = True
-                            else:
-                                raise
-                    try:
-                        ret[constants.VariableName.GEOMETRY_VARIABLE][idx] = row['geom']
-                    except KeyError:
-                        pass
+            to_load = get_variables_to_load(variable)
+            # Initialize the variable data as zero arrays.
+            ret = {v.name: np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False) for v in to_load}
+            # Fill those arrays.
+            for idx, row in enumerate(g):
+                for v in to_load:
+                    if isinstance(v, GeometryVariable):
+                        ret[v.name][idx] = row['geom']
+                        continue
+                    dv = row['properties'][v.source_name]
+                    if dv is None:
+                        # Property value may be none. Set the data to masked if this is the case.
+                        ret[v.name].mask[idx] = True
+                    else:
+                        ret[v.name][idx] = dv
 
         # Only supply a mask if something is actually masked. Otherwise, remove the mask.
-        is_masked = any([v.mask.any() for v in ret.values()])
-        if not is_masked:
-            for k, v in ret.items():
+        for k, v in ret.items():
+            if not v.mask.any():
                 ret[k] = v.data
 
         return ret
-- 
2.43.0


From 46847e22631d0879041424c565a50c3b3c3cb2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 43/59] fix: expression strings keep the case of names and need
 no metadata

---
 src/ocgis/ops/parms/base.py       | 2 +-
 src/ocgis/ops/parms/definition.py | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/ops/parms/base.py b/src/ocgis/ops/parms/base.py
index df924a4..ebe9099 100644
--- a/src/ocgis/ops/parms/base.py
+++ b/src/ocgis/ops/parms/base.py
@@ -138,7 +138,7 @@ class AbstractParameter(AbstractOcgisObject):
         else:
             modified = value
         modified = modified.strip()
-        if modified == 'none':
+        if modified.lower() == 'none':
             ret = None
         else:
             ret = self._parse_string_(modified)
diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 11c9cf0..3bcebf9 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -126,6 +126,7 @@ class Calc(base.IterableParameter, base.AbstractParameter):
     _possible = ['es=tas+4', ['es=tas+4'], [{'func': 'mean', 'name': 'mean'}]]
     _required_keys_final = {'ref', 'meta_attrs', 'name', 'func', 'kwds'}
     _required_keys_initial = ('name', 'func')
+    _lower_string = False  # Variable names are case-sensitive.
 
     def __init__(self, *args, **kwargs):
         # this flag is used by the parser to determine if an eval function has been passed. very simple test for this...
@@ -185,9 +186,9 @@ class Calc(base.IterableParameter, base.AbstractParameter):
             new_value = {'func': eval_string, 'ref': eval_klass, 'name': None, 'kwds': OrderedDict()}
             # attempt to update the meta_attrs if they are present
             try:
-                new_value.update({'meta_attrs': value['meta_attrs']})
-            # attempting to index a string incorrectly
-            except TypeError:
+                new_value.update({'meta_attrs': value.get('meta_attrs')})
+            # this is a string
+            except AttributeError:
                 new_value.update({'meta_attrs': None})
             # adjust the reference
             value = new_value
@@ -264,7 +265,7 @@ class Calc(base.IterableParameter, base.AbstractParameter):
                         kwds.update({kwd_name: str(kwd_value)})
             except ValueError:
                 kwds = OrderedDict()
-            ret = {'func': key, 'name': uname, 'kwds': kwds}
+            ret = {'func': key.lower(), 'name': uname, 'kwds': kwds}
         except ValueError:
             # likely a string to use for an eval function
             if '=' not in value:
-- 
2.43.0


From fbbd9cc8f16856d45b692f375c67f0cf7196e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 44/59] fix: each expression is computed on its own with names,
 dimensions and types as written

---
 src/ocgis/calc/engine.py        |   4 +-
 src/ocgis/calc/eval_function.py | 139 +++++++++++++++++---------------
 2 files changed, 78 insertions(+), 65 deletions(-)

diff --git a/src/ocgis/calc/engine.py b/src/ocgis/calc/engine.py
index 29ee0c7..bd73adb 100644
--- a/src/ocgis/calc/engine.py
+++ b/src/ocgis/calc/engine.py
@@ -104,8 +104,8 @@ class CalculationEngine(object):
                             new_temporal = function.tgd.extract()
                     except KeyError:
                         # Likely an eval function which does not have the name key.
-                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=self.funcs[0]['func'],
-                                                meta_attrs=self.funcs[0].get('meta_attrs'))
+                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=f['func'],
+                                                meta_attrs=f.get('meta_attrs'))
 
                     ocgis_lh('calculation initialized', logger='calc.engine', level=logging.DEBUG)
 
diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index ecc3b7a..3812884 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -1,9 +1,40 @@
 import re
-from copy import deepcopy
 
 import numpy as np
 from ocgis import constants
 from ocgis.calc.base import AbstractUnivariateFunction
+from ocgis.util.broadcaster import broadcast_array_by_dimension_names
+from ocgis.variable.base import get_default_fill_value_from_dtype
+
+
+# Numbers and names in an expression string.
+TOKEN = re.compile(r'(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?(?!\w)|\w+')
+NUMBER = re.compile(r'(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?$')
+
+
+def get_name(mo, variable_names=()):
+    """
+    Interpret a token in an expression string.
+
+    :param mo: The match object of the token.
+    :param variable_names: Names of the variables used in the expression (variable names may begin with a digit).
+    :return: A tuple of the name and ``True`` if it names a function. The name is ``None`` if the token is a number. A
+     function's name is followed by its arguments. It names a variable otherwise.
+    :rtype: tuple
+    """
+    token = mo.group(0)
+    is_function = token in constants.ENABLED_NUMPY_UFUNCS and mo.string[mo.end():].lstrip().startswith('(')
+    if token not in variable_names and NUMBER.match(token) is not None:
+        token = None
+    return token, is_function
+
+
+def iter_names(expr, variable_names=()):
+    """See :func:`~ocgis.calc.eval_function.get_name`. Numbers are not yielded."""
+    for mo in TOKEN.finditer(expr):
+        name, is_function = get_name(mo, variable_names=variable_names)
+        if name is not None:
+            yield name, is_function
 
 
 class EvalFunction(AbstractUnivariateFunction):
@@ -40,39 +71,41 @@ class EvalFunction(AbstractUnivariateFunction):
         map_vars = {}
         calculation_targets = {}
         for variable in self.iter_calculation_targets(yield_calculation_name=False, validate_units=False):
-            # for variable in self.field.variables.itervalues():
             map_vars[variable.name] = '_exec_' + variable.name
             calculation_targets[variable.name] = variable
-            # map_vars[variable.name] = '_exec_' + variable.name + '.value'
-            # map_vars[variable.alias] = '_exec_' + variable.alias + '.value'
         # parse the string filling in the local variable names
         expr, out_variable_name = self._get_eval_string_(self.expr, map_vars)
         # update the output alias and key used to create the variable collection later
         self.alias, self.key = out_variable_name, out_variable_name
 
-        # Construct conformed array iterator.
-        keys = list(map_vars.keys())
-        crosswalks = [self._get_dimension_crosswalk_(calculation_targets[k]) for k in keys]
-        variable_shapes = [calculation_targets[k].shape for k in keys]
-        arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
-        archetype = calculation_targets[keys[0]]
-        fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only,
-                                      dtype=archetype.dtype)
-        fill.units = None
-
+        # Only the variables named by the expression are part of the calculation. The output's dimensions come from the
+        # variable with the most dimensions.
+        keys = [k for k in calculation_targets.keys() if re.search(r'(?<!\w){}(?!\w)'.format(map_vars[k]), expr)]
+        if len(keys) == 0:
+            raise ValueError('The expression string does not name a variable: "{0}".'.format(self.expr))
+        archetype = max([calculation_targets[k] for k in keys], key=lambda v: v.ndim)
+        crosswalks = {k: self._get_dimension_crosswalk_(calculation_targets[k]) for k in keys}
+        dst_names = crosswalks[archetype.name]
+        for k in keys:
+            if not set(crosswalks[k]).issubset(dst_names):
+                msg = 'The dimensions of "{}" and "{}" differ. They may not be used in the same expression: "{}".'
+                raise ValueError(msg.format(k, archetype.name, self.expr))
+
+        # The data type is determined by the calculation.
+        samples = {map_vars[k]: np.ma.zeros([1] * archetype.ndim, dtype=calculation_targets[k].dtype) for k in keys}
+        dtype = eval(expr, {'np': np}, samples).dtype
+        if dtype != archetype.dtype and self.fill_value is None:
+            self.fill_value = get_default_fill_value_from_dtype(dtype)
+
+        res = None
         if not self.file_only:
-            arr_fill = self.get_variable_value(fill)
-
-            itrs = [self._iter_conformed_arrays_(crosswalks[idx], variable_shapes[idx], arrs[idx], arr_fill, None)
-                    for idx in range(len(crosswalks))]
+            arrs = {map_vars[k]: broadcast_array_by_dimension_names(self.get_variable_value(calculation_targets[k]),
+                                                                    crosswalks[k], dst_names) for k in keys}
+            res = np.ma.array(eval(expr, {'np': np}, arrs), dtype=dtype, copy=True)
 
-            for yld in zip(*itrs):
-                for idx in range(len(keys)):
-                    locals()[map_vars[keys[idx]]] = yld[idx][0]
-                res = eval(expr)
-                carr_fill = yld[0][1]
-                carr_fill.data[:] = res.data
-                carr_fill.mask[:] = res.mask
+        fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only, dtype=dtype,
+                                      variable_value=res)
+        fill.units = None
 
         self._add_to_collection_({'fill': fill})
 
@@ -90,14 +123,9 @@ class EvalFunction(AbstractUnivariateFunction):
         # do not count the output variable name
         expr = expr.split('=')[1]
         # count the number of variable names in the right hand side of the string expression.
-        strings = set(re.findall("[A-Za-z0-9_]+", expr))
-        strings = set([s for s in strings if re.search("[A-Za-z]", s) is not None])
-        strings_left = deepcopy(strings)
-        for s in strings:
-            if s in constants.ENABLED_NUMPY_UFUNCS:
-                strings_left.remove(s)
+        names = set([name for name, is_function in iter_names(expr) if not is_function])
         # if there are more than one variable alias in the equation, the expression is multivariate
-        if len(strings_left) > 1:
+        if len(names) > 1:
             ret = True
         else:
             ret = False
@@ -120,45 +148,30 @@ class EvalFunction(AbstractUnivariateFunction):
         :raises ValueError:
         """
 
-        # standard arithmetic mathematical operators
-        math_set = '[(\-+*/)]'
-        # regular expressions use to find the variable aliases
-        re_expr_base = ['{1}{0}{1}', '^{0}{1}', '{1}{0}$', '^{0}$', '{1}{0},']
         # attempt to split the expression at the equals sign.
         try:
             out_variable_name, expr = expr.split('=')
         except ValueError:
             msg = 'Unable to parse expression string: "{0}". The equals sign is likely missing.'
             raise ValueError(msg.format(expr))
-        # find the variable aliases and function names in the string expression
-        strings = set(re.findall("[A-Za-z0-9_]+", expr))
-        strings = set([s for s in strings if re.search("[A-Za-z]", s) is not None])
-        # "strings" must be entirely composed of enabled numpy functions and the variable aliases originating from the
-        # keys in "map_vars"
-        for s in strings:
-            if s not in constants.ENABLED_NUMPY_UFUNCS and s not in list(map_vars.keys()):
+        out_variable_name = out_variable_name.strip()
+        # Names must be entirely composed of enabled numpy functions and the variable aliases originating from the keys in
+        # "map_vars".
+        for name, is_function in iter_names(expr, variable_names=map_vars):
+            if not is_function and name not in map_vars:
                 raise ValueError('Unable to parse expression string: "{0}". '
                                  'Ensure the NumPy functions are enabled and appropriate '
-                                 'variables have been requested. The problem string value is "{1}".'.format(expr, s))
-        # update the names of the numpy functions to use the module prefix "np"
-        for np_func in constants.ENABLED_NUMPY_UFUNCS:
-            expr = expr.replace(np_func, 'np.' + np_func)
-        # update the variable aliases to match the key-value relationship in "map_vars"
-        max_ctr = len(expr)
-        for k, v in map_vars.items():
-            for r in re_expr_base:
-                re_expr = r.format(k, math_set)
-                ctr = 0
-                while True:
-                    def repl(mo):
-                        return mo.group(0).replace(k, v)
-
-                    expr = re.sub(re_expr, repl, expr)
-                    if re.search(re_expr, expr) is None:
-                        break
-                    ctr += 1
-                    if ctr > max_ctr:
-                        break
+                                 'variables have been requested. The problem string value is "{1}".'.format(expr, name))
+
+        # Update the names of the numpy functions to use the module prefix "np" and the variable aliases to match the
+        # key-value relationship in "map_vars".
+        def repl(mo):
+            name, is_function = get_name(mo, variable_names=map_vars)
+            if name is None:
+                return mo.group(0)
+            return 'np.' + name if is_function else map_vars[name]
+
+        expr = TOKEN.sub(repl, expr).strip()
         return expr, out_variable_name
 
     def _set_derived_variable_alias_(self, *args, **kwargs):
-- 
2.43.0


From c3495943ef549cb77be323fdd19f230a289b4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 45/59] fix: unit conversion leaves a variable alone when
 refused or already in the units, deep copies keep their collection, masked
 values follow converted types

A refused conversion left the new label on unconverted numbers. Conforming to the present units
replaced the fill value. Attributes holding packed or limiting values of the original units were
kept. A conversion requested before deferred values of vector data were converted on loading used
the wrong source units. Deep copies of variables with bounds were replaced in their own collection.
Messages of unit validation errors could not be created.
---
 src/ocgis/driver/request/core.py |  2 +-
 src/ocgis/exc.py                 |  2 +-
 src/ocgis/variable/base.py       | 41 ++++++++++++++++++++------------
 src/ocgis/variable/temporal.py   |  2 +-
 4 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 10667d2..436a6d2 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -554,7 +554,7 @@ def validate_units(keyword, sequence):
     try:
         list(map(get_units_object, sequence))
     except ValueError as e:
-        raise RequestValidationError(keyword, e.message)
+        raise RequestValidationError(keyword, str(e))
 
 
 def validate_unit_equivalence(src_units, dst_units):
diff --git a/src/ocgis/exc.py b/src/ocgis/exc.py
index 3716199..845d891 100644
--- a/src/ocgis/exc.py
+++ b/src/ocgis/exc.py
@@ -314,7 +314,7 @@ class UnitsValidationError(OcgException):
     def __str__(self):
         msg = ('There was an error in units validation for calculation with key "{3}". The units on variable "{0}" '
                '(units="{2}") do not match the required units "{1}". The units should be conformed or overloaded if '
-               'incorrectly attributed.').format(self.variable.alias, self.required_units, self.variable.units,
+               'incorrectly attributed.').format(self.variable.name, self.required_units, self.variable.units,
                                                  self.calculation_key)
         return msg
 
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 72b5a5c..d3e9ad8 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -874,11 +874,13 @@ class Variable(AbstractContainer, Attributes):
         if eager:
             raise NotImplementedError
         else:
-            with orphaned(deepcopied):
-                deepcopied.__dict__ = deepcopy(deepcopied.__dict__)
-            deepcopied.parent.add_variable(deepcopied, force=True)
+            # The bounds are held by the same (copied) collection.
+            targets = [deepcopied]
             if deepcopied.has_bounds:
-                deepcopied.set_bounds(deepcopied.bounds.deepcopy(), force=True)
+                targets.append(deepcopied.bounds)
+            for target in targets:
+                with orphaned(target):
+                    target.__dict__ = deepcopy(target.__dict__)
 
         return deepcopied
 
@@ -896,24 +898,31 @@ class Variable(AbstractContainer, Attributes):
         if from_units is None and self.units is None:
             raise NoUnitsError(self.name)
 
+        # Units of the source may be conformed when the value is loaded.
+        self.get_value()
+
         # Use overloaded value for source units.
         from_units = self.cfunits if from_units is None else from_units
 
         # Get the conform value before swapping the units. Conversion inside time dimensions may be negatively affected
-        # otherwise.
+        # otherwise. Nothing is changed if the units may not be converted.
         to_conform_value = self._get_to_conform_value_()
+        new_value = get_conformed_units(to_conform_value, from_units, to_units)
 
-        # Update the units attribute with the destination units. Do this before conversion to not enter recursion when
-        # setting the new value.
+        # Update the units attribute with the destination units. Do this before setting the new value to not enter
+        # recursion.
+        is_converted = get_units_object(from_units) != get_units_object(to_units)
         self.units = to_units
 
-        # Conform the units.
-        new_value = get_conformed_units(to_conform_value, from_units, to_units)
-        self._set_to_conform_value_(new_value)
-
-        # Let the data type and fill value load from the value array.
-        self._dtype = 'auto'
-        self._fill_value = 'auto'
+        # The values do not change if the units are the same.
+        if is_converted:
+            self._set_to_conform_value_(new_value)
+            # Let the data type and fill value load from the value array.
+            self._dtype = 'auto'
+            self._fill_value = 'auto'
+            # These attributes refer to the original values.
+            for attr in ['add_offset', 'scale_factor', 'missing_value', 'valid_min', 'valid_max', 'valid_range']:
+                self.attrs.pop(attr, None)
 
         if self.has_bounds:
             self.bounds.cfunits_conform(to_units, from_units=from_units)
@@ -937,11 +946,13 @@ class Variable(AbstractContainer, Attributes):
 
         :rtype: :class:`numpy.ma.MaskedArray`
         """
+        # Loading the value may change the data type.
+        value = self.get_value()
         if isinstance(self.dtype, ObjectType):
             dtype = object
         else:
             dtype = self.dtype
-        ret = np.ma.array(self.get_value(), mask=self.get_mask(), dtype=dtype, fill_value=self.fill_value)
+        ret = np.ma.array(value, mask=self.get_mask(), dtype=dtype, fill_value=self.fill_value)
         return ret
 
     def set_extrapolated_bounds(self, name_variable, name_dimension):
diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index acf6858..64663c2 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -357,7 +357,7 @@ class TemporalVariable(SourcedVariable):
                 # The times may not be formattable.
                 except (ValueError, OverflowError) as e:
                     messages = ('year is out of range', 'month must be in 1..12', 'date value out of range')
-                    if e.message in messages:
+                    if str(e) in messages:
                         start_date, end_date = self.extent
                     else:
                         raise
-- 
2.43.0


From be4a4f347979f7969ac836bd53efca30d768b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 46/59] fix: role maps keep every entry when converted, merged
 or given, and roles follow the metadata

---
 src/ocgis/collection/field.py     |  2 +-
 src/ocgis/driver/dimension_map.py | 22 ++++++++++++++++------
 src/ocgis/driver/nc.py            | 19 ++++++++++++-------
 src/ocgis/driver/request/core.py  |  2 +-
 src/ocgis/variable/crs.py         |  6 +++++-
 5 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index a886f9b..e9f57d2 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1123,7 +1123,7 @@ def get_name_mapping(dimension_map):
     for k in to_slice:
         variable_name = dimension_map.get_variable(k)
         if variable_name is not None:
-            dimension_names = dimension_map.get_dimension(k)
+            dimension_names = list(dimension_map.get_dimension(k))
             # Use the variable name if there are no dimension names available.
             if len(dimension_names) == 0:
                 dimension_name = variable_name
diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 81727e7..8d745bd 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -72,6 +72,11 @@ class DimensionMap(AbstractOcgisObject):
                 has_groups = True
             elif k == DMK.DRIVER:
                 d.set_driver(v)
+            elif k == DMK.TOPOLOGY:
+                for topology, topology_dct in v.items():
+                    d._storage.setdefault(k, {})[topology] = cls.from_dict(topology_dct)
+            elif k in (DMK.GRID_ABSTRACTION, DMK.IS_ISOMORPHIC):
+                d.set_property(k, v)
             else:
                 try:
                     variable = v.pop(DMK.VARIABLE)
@@ -80,8 +85,8 @@ class DimensionMap(AbstractOcgisObject):
                 if k == DMK.CRS:
                     d.set_crs(variable)
                 elif k == DMK.SPATIAL_MASK:
-                    if v != {}:
-                        d.set_spatial_mask(variable)
+                    if variable is not None:
+                        d.set_spatial_mask(variable, attrs=v.get(DMK.ATTRS))
                 else:
                     d.set_variable(k, variable, **v)
         if has_groups:
@@ -274,7 +279,8 @@ class DimensionMap(AbstractOcgisObject):
 
         if ret is not None:
             ret = self._storage[DMK.TOPOLOGY].get(topology, default)
-            self._storage[DMK.TOPOLOGY][topology] = ret
+            if ret is not None:
+                self._storage[DMK.TOPOLOGY][topology] = ret
 
         # if ret is None:
         #     ret = GridAbstraction.AUTO
@@ -395,7 +401,7 @@ class DimensionMap(AbstractOcgisObject):
         """
         name = get_variable_names(bounds)[0]
         entry = self._get_entry_(entry_key)
-        if entry[DMK.VARIABLE] is None:
+        if entry.get(DMK.VARIABLE) is None:
             raise DimensionMapError(entry_key, 'No variable set. Bounds may not be set.')
         entry[DMK.BOUNDS] = name
 
@@ -558,6 +564,8 @@ class DimensionMap(AbstractOcgisObject):
         entry[DMK.ATTRS] = attrs
         if section is not None:
             entry[DMK.SECTION] = section
+        else:
+            entry.pop(DMK.SECTION, None)
 
     def update(self, other):
         """
@@ -566,7 +574,7 @@ class DimensionMap(AbstractOcgisObject):
         :param other:
         :type other: :class:`~ocgis.DimensionMap`
         """
-        for other_k, other_v in other._storage.items():
+        for other_k, other_v in deepcopy(other._storage).items():
             if other_k == DMK.TOPOLOGY:
                 if DMK.TOPOLOGY not in self._storage:
                     self._storage[DMK.TOPOLOGY] = {}
@@ -586,8 +594,10 @@ class DimensionMap(AbstractOcgisObject):
             dimension_names = self.get_dimension(k)
             if variable_name is not None and len(dimension_names) == 0:
                 metadata_dimensions = metadata.get('variables', {}).get(variable_name, {}).get('dimensions', [])
+                if len(metadata_dimensions) > 1 and k in (DMK.Y, DMK.X):
+                    metadata_dimensions = [metadata_dimensions[0 if k == DMK.Y else 1]]
                 if len(metadata_dimensions) > 0:
-                    self.set_variable(k, variable_name, dimension=metadata_dimensions)
+                    self.set_variable(k, variable_name, dimension=metadata_dimensions, bounds=self.get_bounds(k))
 
     def _forget_variables_(self, names):
         """Drop roles and bounds of variables no longer in the parent. Attributes of the roles are kept."""
diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index d449873..a1a72f2 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -419,7 +419,8 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
         axes_needed = [DimensionMapKey.TIME, DimensionMapKey.X, DimensionMapKey.Y]
         dvars = []
 
-        dimension_names_needed = []
+        # Each required axis offers the names of dimensions it may be found on.
+        needed = []
         for axis in axes_needed:
             axis_variable = group_dimension_map.get_variable(axis)
             if axis_variable is None:
@@ -427,13 +428,15 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
                 # group.
                 return tuple()
             else:
-                dimension_names_needed += group_dimension_map.get_dimension(axis)
-        dimension_names_needed = set(dimension_names_needed)
+                needed.append(set(group_dimension_map.get_dimension(axis)))
+
+        # Variables holding a role are not data.
+        role_names = [group_dimension_map.get_spatial_mask()]
+        for k in DimensionMapKey.get_axis_mapping().values():
+            role_names += [group_dimension_map.get_variable(k), group_dimension_map.get_bounds(k)]
 
         for vk, vv in list(group_metadata['variables'].items()):
-            variable_dimension_names = set(vv['dimensions'])
-            intersection = dimension_names_needed.intersection(variable_dimension_names)
-            if len(intersection) == len(axes_needed):
+            if vk not in role_names and all(names.intersection(vv['dimensions']) for names in needed):
                 dvars.append(vk)
 
         return tuple(dvars)
@@ -441,7 +444,9 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
     def get_distributed_dimension_name(self, dimension_map, dimensions_metadata, decomp_type=DecompositionType.OCGIS):
         x_variable = dimension_map.get_variable(DimensionMapKey.X)
         y_variable = dimension_map.get_variable(DimensionMapKey.Y)
-        if x_variable and y_variable:
+        # Scalar coordinates have no dimension to distribute.
+        has_dimensions = all(len(dimension_map.get_dimension(k)) > 0 for k in (DimensionMapKey.X, DimensionMapKey.Y))
+        if x_variable and y_variable and has_dimensions:
             dimension_name_x = dimension_map.get_dimension(DimensionMapKey.X)[0]
             if decomp_type == DecompositionType.OCGIS:
                 dimension_name_y = dimension_map.get_dimension(DimensionMapKey.Y)[0]
diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 436a6d2..5d568e1 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -163,7 +163,7 @@ class RequestDataset(AbstractRequestObject):
         self.predicate = predicate
         if dimension_map is not None and isinstance(dimension_map, dict):
             dimension_map = DimensionMap.from_dict(dimension_map)
-        self._dimension_map = dimension_map
+        self._dimension_map = deepcopy(dimension_map)
 
         self._metadata = deepcopy(metadata)
         self._uri = None
diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index d4f3fe3..a9fac7b 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -1046,7 +1046,11 @@ class CFSpherical(Spherical, CFCoordinateReferenceSystem):
             r_grid_mapping = variable_attrs.get('grid_mapping')
             r_grid_mapping_name = variable_attrs.get('grid_mapping_name')
             if cls.grid_mapping_name in (r_grid_mapping, r_grid_mapping_name):
-                return cls()
+                ret = cls()
+                if r_grid_mapping_name == cls.grid_mapping_name:
+                    # The grid mapping variable holds the role.
+                    ret.name = var
+                return ret
             else:
                 raise ProjectionDoesNotMatch
         elif depth == 2:
-- 
2.43.0


From 0393becebd196a89455f875b43d387576960ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 47/59] fix: role maps merge entry by entry and nested groups
 keep their place

---
 src/ocgis/driver/dimension_map.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 8d745bd..69a75b9 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -77,6 +77,9 @@ class DimensionMap(AbstractOcgisObject):
                     d._storage.setdefault(k, {})[topology] = cls.from_dict(topology_dct)
             elif k in (DMK.GRID_ABSTRACTION, DMK.IS_ISOMORPHIC):
                 d.set_property(k, v)
+            elif not any(v.values()):
+                # The entry was only asked for.
+                continue
             else:
                 try:
                     variable = v.pop(DMK.VARIABLE)
@@ -112,7 +115,7 @@ class DimensionMap(AbstractOcgisObject):
             curr.set_group(group_name, dimension_map)
         if DMK.GROUPS in group_metadata:
             for group_name, sub_group_metadata in group_metadata[DMK.GROUPS].items():
-                cls.from_metadata(driver, sub_group_metadata, curr=curr, group_name=group_name)
+                cls.from_metadata(driver, sub_group_metadata, curr=dimension_map, group_name=group_name)
 
         return curr
 
@@ -575,10 +578,13 @@ class DimensionMap(AbstractOcgisObject):
         :type other: :class:`~ocgis.DimensionMap`
         """
         for other_k, other_v in deepcopy(other._storage).items():
-            if other_k == DMK.TOPOLOGY:
-                if DMK.TOPOLOGY not in self._storage:
-                    self._storage[DMK.TOPOLOGY] = {}
-                self._storage[DMK.TOPOLOGY].update(other_v)
+            if other_k in (DMK.TOPOLOGY, DMK.GROUPS):
+                children = get_or_create_dict(self._storage, other_k, {})
+                for child_name, child in other_v.items():
+                    get_or_create_dict(children, child_name, self.__class__()).update(child)
+            elif isinstance(other_v, dict) and not any(other_v.values()):
+                # The entry was only asked for.
+                continue
             else:
                 self._storage[other_k] = other_v
 
-- 
2.43.0


From 0f635128b8e372f36daed8070c1118d5beb08ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 48/59] fix: wrapping keeps interior rings and stored
 geometries, reordering moves every variable of the reordered dimension, one
 wrapped state over all geometries and processes

---
 src/ocgis/collection/field.py |  9 ++--
 src/ocgis/spatial/grid.py     | 39 +++++++++-------
 src/ocgis/spatial/wrap.py     | 87 +++++++++++------------------------
 src/ocgis/variable/crs.py     | 20 ++++----
 4 files changed, 65 insertions(+), 90 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index e9f57d2..c592034 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1170,8 +1170,11 @@ def wrap_or_unwrap(field, action, inplace=True):
 
     if field.grid is not None:
         if not inplace:
-            x = field.grid.x
-            x.set_value(x.value.copy())
+            # Coordinates and any geometries stored with the grid are changed.
+            grid = field.grid
+            to_copy = [grid.x] + [field[name] for name in (grid._point_name, grid._polygon_name) if name in field]
+            for var in to_copy:
+                var.set_value(var.get_value().copy())
         if action == WrapAction.WRAP:
             field.grid.wrap()
         else:
@@ -1179,7 +1182,7 @@ def wrap_or_unwrap(field, action, inplace=True):
     elif field.geom is not None:
         if not inplace:
             geom = field.geom
-            geom.set_value(geom.value.copy())
+            geom.set_value(geom.get_value().copy())
         if action == WrapAction.WRAP:
             field.geom.wrap()
         else:
diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index a73203d..3ae69bc 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -782,28 +782,33 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         shift_indices = np.zeros(self.shape[0], dtype=int)
         for row_index in range(wrapped.shape[0]):
-            the_split_index = None
-            for ctr, element in enumerate(wrapped[row_index].flat):
-                if element < 0:
-                    the_split_index = ctr
-                    break
-            shift_indices[row_index] = the_split_index
+            # The lowest longitude is the first in the reordered row.
+            shift_indices[row_index] = wrapped[row_index].argmin()
 
         if self.is_vectorized:
             shift_indices[:] = shift_indices[0]
-            reorder_array(shift_indices, self.x.get_value().reshape(1, -1), get_dimension_names(self.dimensions),
-                          reorder_dimension, varying_dimension)
 
-        # Reorder all arrays that have the reorder and varying dimension.
+        # Reorder all arrays that have the reorder and varying dimension. When coordinates are vectors, all rows have the same
+        # shift and arrays with the reorder dimension only are reordered the same way.
         for var in list(self.parent.values()):
-            arr_dimension_names = get_dimension_names(var.dimensions)
-            if reorder_dimension in arr_dimension_names and varying_dimension in arr_dimension_names:
-                reorder_array(shift_indices, var.get_value(), arr_dimension_names, reorder_dimension, varying_dimension)
-                if var.has_masked_values:
-                    mask = var.get_mask()
-                    if mask is not None:
-                        reorder_array(shift_indices, mask, arr_dimension_names, reorder_dimension, varying_dimension)
-                        var.set_mask(mask)
+            arr_dimension_names = tuple(get_dimension_names(var.dimensions))
+            if reorder_dimension not in arr_dimension_names:
+                continue
+            add_varying = varying_dimension not in arr_dimension_names
+            if add_varying:
+                if not self.is_vectorized:
+                    continue
+                arr_dimension_names = (varying_dimension,) + arr_dimension_names
+
+            arrays = [var.get_value()]
+            mask = var.get_mask() if var.has_masked_values else None
+            if mask is not None:
+                arrays.append(mask)
+            for arr in arrays:
+                reorder_array(shift_indices, arr[np.newaxis] if add_varying else arr, arr_dimension_names,
+                              reorder_dimension, varying_dimension)
+            if mask is not None:
+                var.set_mask(mask)
 
     def set_extrapolated_bounds(self, name_x_variable, name_y_variable, name_dimension):
         """
diff --git a/src/ocgis/spatial/wrap.py b/src/ocgis/spatial/wrap.py
index cd716ab..9dae8f6 100644
--- a/src/ocgis/spatial/wrap.py
+++ b/src/ocgis/spatial/wrap.py
@@ -3,7 +3,7 @@ from abc import abstractmethod
 
 import numpy as np
 import six
-from shapely.geometry.linestring import LineString
+from shapely.affinity import translate
 from shapely.geometry.multipoint import MultiPoint
 from shapely.geometry.multipolygon import MultiPolygon
 from shapely.geometry.point import Point
@@ -92,10 +92,11 @@ class GeometryWrapper(AbstractWrapper):
 
         miny = -90
         maxy = 90
-        self.right_clip = make_poly((miny, maxy), (self.wrap_axis, 360))
-        self.left_clip = make_poly((miny, maxy), (-self.wrap_axis, self.wrap_axis))
-        self.clip1 = make_poly((miny, maxy), (-self.wrap_axis, self.center_axis))
-        self.clip2 = make_poly((miny, maxy), (self.center_axis, self.wrap_axis))
+        # Geometries may reach over the ends of the spatial domains (i.e. below -180 or above 360).
+        self.right_clip = make_poly((miny, maxy), (self.wrap_axis, self.wrap_axis + 360))
+        self.left_clip = make_poly((miny, maxy), (self.wrap_axis - 360, self.wrap_axis))
+        self.clip1 = make_poly((miny, maxy), (self.center_axis - 360, self.center_axis))
+        self.clip2 = make_poly((miny, maxy), (self.center_axis, self.center_axis + 360))
 
     def unwrap(self, geom):
         """
@@ -128,37 +129,13 @@ class GeometryWrapper(AbstractWrapper):
                     left = to_process.intersection(self.clip1)
                     right = to_process.intersection(self.clip2)
 
-                    # Pull out the right side polygons.
-                    right_polygons = [poly for poly in iter_exploded_geometries(right)]
-
-                    # Adjust polygons falling the left window.
-                    if isinstance(left, Polygon):
-                        left_polygons = [self._unwrap_shift_(left)]
-                    else:
-                        left_polygons = []
-                        for polygon in left:
-                            left_polygons.append(self._unwrap_shift_(polygon))
+                    # Adjust polygons falling in the left window.
+                    left_polygons = [self._unwrap_shift_(poly) for poly in get_polygons(left)]
 
                     # Merge polygons into single unit.
-                    try:
-                        processed = MultiPolygon(left_polygons + right_polygons)
-                    except TypeError:
-                        left = [x for x in left_polygons if type(x) != LineString]
-                        right = [x for x in right_polygons if type(x) != LineString]
-                        processed = MultiPolygon(left + right)
-
+                    processed = left_polygons + get_polygons(right)
                 else:
-                    if isinstance(to_process, Polygon):
-                        processed = [to_process]
-                    else:
-                        processed = to_process
-                # Return a single polygon if the output multi-geometry has only one component. Otherwise, explode the
-                # multi-geometry.
-
-                if len(processed) == 1:
-                    processed = [processed[0]]
-                else:
-                    processed = [i for i in processed]
+                    processed = [to_process]
 
                 # Hold for final adjustment.
                 processed_geometries += processed
@@ -185,38 +162,18 @@ class GeometryWrapper(AbstractWrapper):
         :rtype: :class:`shapely.geometry.base.BaseGeometry`
         """
 
-        def _shift_(geom):
-            try:
-                coords = np.array(geom.exterior.coords)
-                coords[:, 0] = coords[:, 0] - 360
-                ret = Polygon(coords)
-            # Likely a MultiPolygon.
-            except AttributeError:
-                polygons = np.empty(len(geom), dtype=object)
-                for ii, polygon in enumerate(geom):
-                    coords = np.array(polygon.exterior.coords)
-                    coords[:, 0] = coords[:, 0] - 360
-                    polygons[ii] = Polygon(coords)
-                ret = MultiPolygon(list(polygons))
-            return ret
-
         if isinstance(geom, (Polygon, MultiPolygon)):
             bounds = np.array(geom.bounds)
             # If the polygon column bounds are both greater than 180 degrees shift the coordinates of the entire
             # polygon.
             if np.all([bounds[0] > self.wrap_axis, bounds[2] > self.wrap_axis]):
-                new_geom = _shift_(geom)
+                new_geom = translate(geom, xoff=-360)
             # If a polygon crosses the 180 axis, then the polygon will need to be split with intersection and
             # recombined.
             elif bounds[0] <= self.wrap_axis < bounds[2]:
-                left = [poly for poly in iter_exploded_geometries(geom.intersection(self.left_clip))]
-                right = [poly for poly in iter_exploded_geometries(_shift_(geom.intersection(self.right_clip)))]
-                try:
-                    new_geom = MultiPolygon(left + right)
-                except TypeError:
-                    left = [x for x in left if type(x) != LineString]
-                    right = [x for x in right if type(x) != LineString]
-                    new_geom = MultiPolygon(left + right)
+                left = get_polygons(geom.intersection(self.left_clip))
+                right = [translate(poly, xoff=-360) for poly in get_polygons(geom.intersection(self.right_clip))]
+                new_geom = MultiPolygon(left + right)
             # Otherwise, the polygon coordinates are not affected by wrapping and the geometry may be passed through.
             else:
                 new_geom = geom
@@ -283,9 +240,19 @@ class GeometryWrapper(AbstractWrapper):
         :rtype: :class:`shapely.geometry.polygon.Polygon`
         """
 
-        coords = np.array(polygon.exterior.coords)
-        coords[:, 0] = coords[:, 0] + 360
-        return Polygon(coords)
+        return translate(polygon, xoff=360)
+
+
+def get_polygons(geom):
+    """
+    :param geom: The target geometry. Splitting geometries may leave points and lines where the geometry only touches the
+     splitter.
+    :type geom: :class:`shapely.geometry.base.BaseGeometry`
+    :return: The non-empty polygons among the geometry's parts.
+    :rtype: `list` of :class:`shapely.geometry.polygon.Polygon`
+    """
+
+    return [poly for poly in iter_exploded_geometries(geom) if isinstance(poly, Polygon) and not poly.is_empty]
 
 
 def apply_wrapping_index_map(imap, to_remap):
diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index a9fac7b..ecd4bc5 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -246,7 +246,6 @@ class AbstractCRS(AbstractInterfaceObject):
             elif isinstance(target, AbstractXYZSpatialContainer):
                 ret = self._get_wrapped_state_from_array_(target.x.get_value())
             else:
-                stops = (WrappedState.WRAPPED, WrappedState.UNWRAPPED)
                 ret = WrappedState.UNKNOWN
                 geoms = target.get_masked_value().flat
                 _is_masked = np.ma.is_masked
@@ -254,19 +253,19 @@ class AbstractCRS(AbstractInterfaceObject):
                 for geom in geoms:
                     if not _is_masked(geom):
                         flag = _get_ws(geom)
-                        if flag in stops:
+                        # Any unwrapped geometry identifies an unwrapped variable, as any coordinate does for arrays.
+                        if flag == WrappedState.UNWRAPPED:
                             ret = flag
                             break
+                        elif flag == WrappedState.WRAPPED:
+                            ret = flag
 
         rets = vm.gather(ret)
         if vm.rank == 0:
             rets = set(rets)
-            if WrappedState.WRAPPED in rets:
-                ret = WrappedState.WRAPPED
-            elif WrappedState.UNWRAPPED in rets:
-                ret = WrappedState.UNWRAPPED
-            else:
-                ret = list(rets)[0]
+            for ret in (WrappedState.UNWRAPPED, WrappedState.WRAPPED, WrappedState.UNKNOWN, None):
+                if ret in rets:
+                    break
         else:
             ret = None
         ret = vm.bcast(ret)
@@ -345,10 +344,11 @@ class AbstractCRS(AbstractInterfaceObject):
                 func = getattr(ca, attr)
                 func(target.x.get_value())
                 target.remove_bounds()
+                # Geometries stored with the grid follow the coordinates.
                 if target.has_allocated_point:
-                    getattr(target.get_point(), attr)()
+                    getattr(target.parent[target._point_name], attr)()
                 if target.has_allocated_polygon:
-                    getattr(target.get_polygon(), attr)()
+                    getattr(target.parent[target._polygon_name], attr)()
             else:
                 raise NotImplementedError(target)
 
-- 
2.43.0


From 98c8e420d6cfc654c751bb7b10033deee9e0274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:58 +0000
Subject: [PATCH 49/59] fix: geometry selections take any slice, report their
 true length, keep an iterator's own selection and mask null attributes

---
 src/ocgis/collection/field.py     |  4 +-
 src/ocgis/ops/parms/definition.py |  3 +-
 src/ocgis/spatial/geom_cabinet.py | 71 +++++++++++++++----------------
 3 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index c592034..f400aac 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -523,7 +523,9 @@ class Field(VariableCollection):
                     if v is None:
                         # Mask the value if it is None. NULLs are allowed in OGR Vector files, but they do not translate
                         # well to Python. Strings are generally okay but floats/ints case problems.
-                        field[k].get_mask(create=True)[idx] = v
+                        mask = field[k].get_mask(create=True)
+                        mask[idx] = True
+                        field[k].set_mask(mask)
                     else:
                         # Set the associated field value.
                         field[k].get_value()[idx] = v
diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 3bcebf9..1a556f6 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -670,7 +670,8 @@ class Geom(base.AbstractParameter):
         return ret
 
     def _get_value_(self):
-        if isinstance(self._value, GeomCabinetIterator):
+        # Without a selection here, an iterator keeps its own.
+        if isinstance(self._value, GeomCabinetIterator) and self.select_ugid is not None:
             self._value.select_uid = self.select_ugid
         return base.AbstractParameter._get_value_(self)
 
diff --git a/src/ocgis/spatial/geom_cabinet.py b/src/ocgis/spatial/geom_cabinet.py
index 86c5390..9099887 100644
--- a/src/ocgis/spatial/geom_cabinet.py
+++ b/src/ocgis/spatial/geom_cabinet.py
@@ -2,6 +2,7 @@ import os
 from collections import OrderedDict
 
 import fiona
+import numpy as np
 import ogr
 from ocgis import env
 from ocgis.collection.field import Field
@@ -119,10 +120,6 @@ class GeomCabinet(object):
                 exc = ValueError('Slice is not allowed with other select statements.')
                 ocgis_lh(exc=exc, logger='geom_cabinet')
 
-            # Format the slice for iteration. We will get the features by index if a slice is provided.
-            if slc is not None:
-                slc = get_index_slice_for_iteration(slc)
-
             # Open the target geometry file.
             ds = ogr.Open(shp_path)
             try:
@@ -134,22 +131,8 @@ class GeomCabinet(object):
                 if slc is None:
                     itr = features
                 else:
-                    # The geodatabase API requires iterations to get the given location.
-                    if self.get_gdal_driver(shp_path) == 'OpenFileGDB' or isinstance(slc, slice):
-                        def _o_itr_(features_object, slice_start, slice_stop):
-                            for ctr2, fb in enumerate(features_object):
-                                # ... iterate until start is reached.
-                                if ctr2 < slice_start:
-                                    continue
-                                # ... stop if we have reached the stop.
-                                elif ctr2 == slice_stop:
-                                    return
-                                yield fb
-
-                        itr = _o_itr_(features, slc.start, slc.stop)
-                    else:
-                        # Convert the slice index to an integer to avoid type conflict in GDAL layer.
-                        itr = (features.GetFeature(int(idx)) for idx in slc)
+                    # Features are selected by their location.
+                    itr = iter_features_by_index(features, get_slice_indices(slc, len(features)))
 
                 # Convert feature objects to record dictionaries.
                 for ctr, feature in enumerate(itr):
@@ -359,21 +342,19 @@ class GeomCabinetIterator(object):
             # Get the path to the output shapefile.
             shp_path = self.sc._get_path_by_key_or_direct_path_(key=self.key, path=self.path)
 
+            # Get the geometries using a select statement.
+            ds = ogr.Open(shp_path)
+            try:
+                features = self.sc._get_features_object_(ds, uid=self.uid, select_uid=self.select_uid,
+                                                         select_sql_where=self.select_sql_where,
+                                                         driver_kwargs=self.driver_kwargs)
+                ret = len(features)
+            finally:
+                ds.Destroy()
+                ds = None
+
             if self.slc is not None:
-                return len(get_index_slice_for_iteration(self.slc))
-            elif self.select_uid is not None:
-                ret = len(self.select_uid)
-            else:
-                # Get the geometries using a select statement.
-                ds = ogr.Open(shp_path)
-                try:
-                    features = self.sc._get_features_object_(ds, uid=self.uid, select_uid=self.select_uid,
-                                                             select_sql_where=self.select_sql_where,
-                                                             driver_kwargs=self.driver_kwargs)
-                    ret = len(features)
-                finally:
-                    ds.Destroy()
-                    ds = None
+                ret = len(get_slice_indices(self.slc, ret))
         return ret
 
 
@@ -428,6 +409,24 @@ def get_gdal_driver(ds):
     return driver.GetName()
 
 
-def get_index_slice_for_iteration(slc):
+def get_slice_indices(slc, n):
+    """
+    :param slc: An integer, sequence of integers, or slice object.
+    :param int n: The number of features available.
+    :return: Non-negative integer feature locations.
+    :rtype: list of int
+    """
     slc = get_formatted_slice(slc, 1)[0]
-    return slc
+    return [int(idx) for idx in np.arange(n)[slc]]
+
+
+def iter_features_by_index(features, indices):
+    """
+    :param features: The layer object to iterate.
+    :type features: :class:`osgeo.ogr.Layer`
+    :param indices: Integer feature locations in the layer.
+    :type indices: sequence of int
+    """
+    for idx in indices:
+        features.SetNextByIndex(idx)
+        yield features.GetNextFeature()
-- 
2.43.0


From 321ad2d346c09f41dc30f7bb72a58ff59ad44db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 50/59] fix: spells, moving windows, convolutions and daily
 percentiles use unmasked values only and count every spell

---
 src/ocgis/calc/library/index/duration.py    | 45 ++++---------
 src/ocgis/calc/library/index/freeze_thaw.py |  3 +-
 src/ocgis/calc/library/index/heat_index.py  |  7 +-
 src/ocgis/calc/library/math.py              | 25 ++++----
 src/ocgis/calc/library/statistics.py        | 71 +++++++++++----------
 5 files changed, 71 insertions(+), 80 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index 0daa662..92d6083 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -35,28 +35,16 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
 
         # find longest sequence for each geometry across time dimension
         for ii, fill in enumerate(self._iter_consecutive_(values, threshold, operation)):
-            # case of only a singular occurrence
-            if len(fill) > 1:
-                fill = summary_operation(fill)
-            else:
-                try:
-                    fill = fill[0]
-                # value is likely masked
-                except IndexError:
-                    fill = 0
-            store[ii] = fill
+            store[ii] = summary_operation(fill)
 
         store.resize(shp_out)
 
-        # update the output mask. this only applies to geometries so pick the
-        # first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # There is nothing to summarize if all values are masked.
+        store = np.ma.array(store, mask=np.ma.getmaskarray(values).all(axis=0))
 
         return store
 
     def _iter_consecutive_(self, values, threshold, operation):
-        # time index reference
-        ref = np.arange(0, values.shape[0])
         # perform requested logical operation
         if operation == 'gt':
             arr = values > threshold
@@ -66,24 +54,17 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
             arr = values >= threshold
         elif operation == 'lte':
             arr = values <= threshold
+        # Masked values are not an occurrence.
+        arr = np.ma.filled(arr, False)
 
-        # find longest sequence for each geometry across time dimension
+        # find the sequences for each geometry across time dimension
         for rowidx, colidx in iter_array(values[0, :, :], use_mask=False):
             vec = arr[:, rowidx, colidx].reshape(-1)
-            # check first if there is a longer series than 1
-            if np.any(np.diff(ref[vec]) == 1):
-                # find locations where the values switch
-                diff_idx = np.diff(vec)
-                if diff_idx.shape != ref.shape:
-                    diff_idx = np.append(diff_idx, [False])
-                split_idx = ref[diff_idx] + 1
-                splits = np.array_split(vec, split_idx)
-                fill = [a.sum() for a in splits if np.all(a)]
-            # case of only a singular occurrence
-            elif np.any(vec):
-                fill = [1]
+            # find locations where the values switch
+            switches = np.diff(np.concatenate(([0], vec.astype(int), [0])))
+            fill = (np.flatnonzero(switches == -1) - np.flatnonzero(switches == 1)).tolist()
             # case for no occurrence
-            else:
+            if len(fill) == 0:
                 fill = [0]
 
             yield (fill)
@@ -119,8 +100,8 @@ class FrequencyDuration(base.AbstractKeyedOutputFunction, Duration):
             store[ii] = summary
         store.resize(shp_out)
 
-        # Update the output mask. this only applies to geometries so pick the first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # There is nothing to summarize if all values are masked.
+        store = np.ma.array(store, mask=np.ma.getmaskarray(values).all(axis=0))
 
         return store
 
@@ -143,7 +124,7 @@ class FrequencyDuration(base.AbstractKeyedOutputFunction, Duration):
          in the `duration` sequence.
         """
 
-        set_duration = set(duration)
+        set_duration = sorted(set(duration))
         ret = np.empty(len(set_duration), dtype=self.structure_dtype)
         for ii, sd in enumerate(set_duration):
             idx = np.array(duration) == sd
diff --git a/src/ocgis/calc/library/index/freeze_thaw.py b/src/ocgis/calc/library/index/freeze_thaw.py
index 6f6f730..2de8c5f 100644
--- a/src/ocgis/calc/library/index/freeze_thaw.py
+++ b/src/ocgis/calc/library/index/freeze_thaw.py
@@ -107,4 +107,5 @@ def freezethaw1d(x, threshold):
                 cycles.append(s * (w + ci))
 
     # Return the number of transitions from frozen to thawed or vice-versa
-    return float(len(cycles) - 2)  # There are two "artificial" transitions
+    # There are two "artificial" transitions. There may be no event at all.
+    return float(max(len(cycles) - 2, 0))
diff --git a/src/ocgis/calc/library/index/heat_index.py b/src/ocgis/calc/library/index/heat_index.py
index ea273ca..01f0169 100644
--- a/src/ocgis/calc/library/index/heat_index.py
+++ b/src/ocgis/calc/library/index/heat_index.py
@@ -23,10 +23,9 @@ class HeatIndex(base.AbstractMultivariateFunction):
         c8 = 8.5282e-4
         c9 = -1.99e-6
 
-        idx = tas < 80
-        tas.mask = np.logical_or(idx, tas.mask)
-        idx = rhs < 40
-        rhs.mask = np.logical_or(idx, rhs.mask)
+        # Do not mask the input values.
+        tas = np.ma.masked_where(np.ma.filled(tas < 80, True), tas)
+        rhs = np.ma.masked_where(np.ma.filled(rhs < 40, True), rhs)
 
         tas_sq = np.square(tas)
         rhs_sq = np.square(rhs)
diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 5591f3c..6263137 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -1,7 +1,8 @@
+import itertools
+
 import numpy as np
 
 from ocgis.calc import base
-from ocgis.util.helpers import iter_array
 
 
 class Divide(base.AbstractMultivariateFunction):
@@ -81,32 +82,34 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
         #     shape_fill[1] = max(values.shape[1], v.shape[0]) - min(values.shape[1], v.shape[0]) + 1
         fill = np.zeros(shape_fill, dtype=self.dtype)
 
+        # Masked values may not be used by the convolution. An output element is masked if one of its inputs is masked.
+        mask = np.zeros(shape_fill, dtype=bool)
+        values_mask = np.ma.getmaskarray(values)
+        values = np.ma.filled(values, 0)
+        window = np.ones(v.shape[0], dtype=int)
+
         # perform the convolution on the time axis
-        itr = iter_array(values)
-        for ie, it, il, ir, ic in itr:
+        for ie, il, ir, ic in itertools.product(*[list(range(values.shape[ii])) for ii in (0, 2, 3, 4)]):
             a = values[ie, :, il, ir, ic]
-            res_convolve = np.convolve(a, v, mode=mode)
+            a_mask = values_mask[ie, :, il, ir, ic]
             if mode == 'valid':
                 time_slice = slice(0, max(values.shape[1], v.shape[0]) - min(values.shape[1], v.shape[0]) + 1)
-                # fill[ie, :, il, ir, ic] = res_convolve
             else:
                 time_slice = slice(None)
-            fill[ie, time_slice, il, ir, ic] = res_convolve
+            fill[ie, time_slice, il, ir, ic] = np.convolve(a, v, mode=mode)
+            mask[ie, time_slice, il, ir, ic] = np.convolve(a_mask.astype(int), window, mode=mode) > 0
 
         if mode == 'valid':
-            # generate the mask for the output data and convert the output to a masked array
-            mask = np.empty(fill.shape, dtype=bool)
-            mask[...] = values.mask[0, 0, 0, :, :]
             fill = np.ma.array(fill, mask=mask)
 
             # identify where the two arrays completely overlap and collect the indices to subset the field object
             # attached to the calculation object
             overlap_mask = np.ones(mask.shape, dtype=bool)
-            overlap_mask[:, slice(0, 0 - (v.shape[0] - 1)), :, :, :] = False
+            overlap_mask[:, slice(0, values.shape[1] - (v.shape[0] - 1)), :, :, :] = False
             fill.mask[:] = np.logical_or(fill.mask, overlap_mask)
             # self.field = self.field[:, slice(0, 0-(v.shape[0]-1)), :, :, :]
         else:
             # same does not modify the output array size
-            fill = np.ma.array(fill, mask=values.mask)
+            fill = np.ma.array(fill, mask=mask)
 
         return fill
diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index f713e51..1104d8f 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -9,6 +9,27 @@ from ocgis.calc.base import AbstractUnivariateFunction, AbstractParameterizedFun
 from ocgis.exc import DefinitionValidationError
 
 
+def get_masked_percentile(values, percentile):
+    """
+    Calculate the percentile along the first axis. Masked values do not contribute to the percentile.
+
+    :param values: The array of values.
+    :type values: :class:`numpy.ma.core.MaskedArray`
+    :param float percentile: Percentile to compute.
+    :rtype: :class:`numpy.ma.core.MaskedArray`
+    """
+
+    mask = np.ma.getmaskarray(values)
+    all_masked = mask.all(axis=0)
+    if mask.any():
+        to_use = np.ma.array(values, dtype=float).filled(np.nan)
+        to_use[:, all_masked] = 0.
+        ret = np.nanpercentile(to_use, percentile, axis=0)
+    else:
+        ret = np.percentile(np.ma.getdata(values), percentile, axis=0)
+    return np.ma.array(ret, mask=all_masked)
+
+
 class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
     key = 'moving_window'
     parms_definition = {'k': int, 'mode': str, 'operation': str}
@@ -43,31 +64,28 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         assert values.ndim == 5
         assert operation in self._potential_operations
 
-        operation = getattr(np, operation)
+        # Masked values do not contribute to the window.
+        operation = getattr(np.ma, operation)
 
         fill = values.copy()
+        if np.issubdtype(fill.dtype, np.integer):
+            fill = fill.astype(float)
+        fill.mask = np.ma.getmaskarray(values).copy()
+        # Used to indicate where there is a full window overlap.
+        invalid = np.ones(fill.shape, dtype=bool)
 
         # perform the moving average on the time axis
         axes = [0, 2]
         itrs = [list(range(values.shape[axis])) for axis in axes]
         for ie, il in itertools.product(*itrs):
             values_slice = values[ie, :, il, :, :]
-            build = True
             for origin, values_kernel in self._iter_kernel_values_(values_slice, k, mode=mode):
-                if build:
-                    # if only the valid region is returned, this index will determine where the start index for the
-                    # field/fill slice is
-                    idx_start = origin
-                    build = False
                 fill[ie, origin, il, :, :] = operation(values_kernel, axis=0)
+                invalid[ie, origin, il, :, :] = False
 
         if mode == 'valid':
-            # slice the field and fill arrays
-            # self.field = self.field[:, idx_start:origin + 1, :, :, :]
             # Mask the invalid regions.
-            fill.mask[:] = True
-            fill.mask[:, idx_start:origin + 1, :, :, :] = False
-            # self._finalize_slice = [slice(None), slice(idx_start, origin + 1), slice(None), slice(None), slice(None)]
+            fill.mask = np.logical_or(np.ma.getmaskarray(fill), invalid)
         elif mode == 'same':
             pass
         else:
@@ -148,9 +166,13 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
     def __init__(self, *args, **kwargs):
         super(DailyPercentile, self).__init__(*args, **kwargs)
 
-        # The temporal group is always month + day. Any overload will not be compliant with the calculation output.
-        assert self.tgd is None
-        self.tgd = self.field.temporal.get_grouping(['month', 'day'])
+        # The temporal group is always month + day. Any other overload will not be compliant with the calculation
+        # output.
+        grouping = ['month', 'day']
+        if self.tgd is None:
+            self.tgd = self.field.temporal.get_grouping(grouping)
+        else:
+            assert list(self.tgd.grouping) == grouping
 
     def calculate(self, values, percentile=None, window_width=None, only_leap_years=False):
         assert (values.shape[0] == 1)
@@ -166,8 +188,6 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
         month_day_map = {(dt.month, dt.day): ii for ii, dt in enumerate(self.tgd.value_datetime)}
         for key, value in dp.items():
             fill[0, month_day_map[key], 0, :, :] = value
-        for idx in range(fill.shape[1]):
-            fill.mask[0, idx, 0, :, :] = values.mask[0, 0, 0, :, :]
         return fill
 
     @staticmethod
@@ -229,10 +249,7 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
                 arr_subset = arr[indices_non_masked, :, :]
 
                 # step5: we compute the percentile for current arr_subset
-                ############## WARNING: type(arr_subset) = numpy.ndarray. Numpy.percentile does not work with masked arrays,
-                ############## so if arr_subset has aberrant values like 999999 or 1e+20, the result will be wrong.
-                ############## Check with numpy.nanpercentile (Numpy version 1.9) !!!
-                arr_percentille_current_calday = np.percentile(arr_subset, percentile, axis=0)
+                arr_percentille_current_calday = get_masked_percentile(arr_subset, percentile)
 
                 # step6: we add to the dictionnary...
                 percentile_dict[month, day] = arr_percentille_current_calday
@@ -366,17 +383,7 @@ class FrequencyPercentile(base.AbstractUnivariateSetFunction, base.AbstractParam
         :type percentile: float on the interval [0,100]
         """
 
-        mask = np.ma.getmaskarray(values)
-        all_masked = mask.all(axis=0)
-        if mask.any():
-            # Masked values do not contribute to the percentile.
-            to_use = np.ma.array(values, dtype=float).filled(np.nan)
-            to_use[:, all_masked] = 0.
-            ret = np.nanpercentile(to_use, percentile, axis=0)
-        else:
-            ret = np.percentile(values.data, percentile, axis=0)
-        ret = np.ma.array(ret, mask=all_masked)
-        return ret
+        return get_masked_percentile(values, percentile)
 
 
 class Max(base.AbstractUnivariateSetFunction):
-- 
2.43.0


From 579996eb87cd844c28ffef8b5dee55a9ba470b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 51/59] fix: output prefixes cannot address other folders,
 secondary outputs are not overwritten silently, logging is as before after a
 run

---
 src/ocgis/conv/base.py            |  27 ++-
 src/ocgis/conv/csv_.py            | 268 ++++++++++++++++--------------
 src/ocgis/ops/interpreter.py      |  31 +++-
 src/ocgis/ops/parms/definition.py |   7 +
 src/ocgis/util/logging_ocgis.py   |  52 +++++-
 5 files changed, 236 insertions(+), 149 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 5ab9891..57aa28d 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -115,6 +115,11 @@ class AbstractCollectionConverter(AbstractFileConverter):
 
         super(AbstractCollectionConverter, self).__init__(**kwargs)
 
+        if not self.overwrite:
+            for path in self._get_secondary_paths_():
+                if os.path.exists(path):
+                    raise IOError(messages.M3.format(path))
+
     def __iter__(self):
         for coll in self.colls:
             assert isinstance(coll, SpatialCollection)
@@ -147,8 +152,22 @@ class AbstractCollectionConverter(AbstractFileConverter):
     def _write_coll_(self, f, coll):
         raise NotImplementedError
 
+    def _get_secondary_paths_(self):
+        """Return paths to files written in addition to the main output file by an operation."""
+        ret = []
+        if self._add_ugeom and self.ops is not None and self.ops.geom is not None:
+            ret.append(self._get_ugeom_path_())
+        return ret
+
+    def _get_shp_folder_(self):
+        return os.path.join(self.outdir, 'shp')
+
+    def _get_ugeom_path_(self):
+        folder = self._get_shp_folder_() if self._add_ugeom_nest else self.outdir
+        return os.path.join(folder, self.prefix + '_ugid.shp')
+
     def _get_or_create_shp_folder_(self):
-        path = os.path.join(self.outdir, 'shp')
+        path = self._get_shp_folder_()
         if not os.path.exists(path):
             os.mkdir(path)
         return path
@@ -183,11 +202,9 @@ class AbstractCollectionConverter(AbstractFileConverter):
                 if write_ugeom:
                     if vm.rank == 0:
                         # The output file name for the user geometries.
-                        ugid_shp_name = self.prefix + '_ugid.shp'
                         if self._add_ugeom_nest:
-                            ugeom_fiona_path = os.path.join(self._get_or_create_shp_folder_(), ugid_shp_name)
-                        else:
-                            ugeom_fiona_path = os.path.join(self.outdir, ugid_shp_name)
+                            self._get_or_create_shp_folder_()
+                        ugeom_fiona_path = self._get_ugeom_path_()
                     else:
                         ugeom_fiona_path = None
 
diff --git a/src/ocgis/conv/csv_.py b/src/ocgis/conv/csv_.py
index 43a8fe7..2a6cdfd 100644
--- a/src/ocgis/conv/csv_.py
+++ b/src/ocgis/conv/csv_.py
@@ -1,129 +1,139 @@
-import logging
-import os
-from csv import excel
-
-from ocgis import Variable, vm
-from ocgis import constants
-from ocgis.collection.field import Field
-from ocgis.constants import KeywordArgument, HeaderName, DriverKey
-from ocgis.conv.base import AbstractTabularConverter
-from ocgis.driver.csv_ import DriverCSV
-from ocgis.util.logging_ocgis import ocgis_lh
-
-
-class OcgDialect(excel):
-    lineterminator = '\n'
-
-
-class CsvConverter(AbstractTabularConverter):
-    _ext = 'csv'
-
-    def _write_coll_(self, f, coll, add_geom_uid=True):
-        write_mode = f[KeywordArgument.WRITE_MODE]
-        path = f[KeywordArgument.PATH]
-
-        iter_kwargs = {'melted': self.melted}
-
-        for field, container in coll.iter_fields(yield_container=True):
-            if container.geom is not None:
-                repeater = [(self.geom_uid, container.geom.ugid.get_value()[0])]
-            else:
-                repeater = None
-
-            if add_geom_uid and field.geom is not None and field.geom.ugid is None:
-                global_ugid = field.geom.create_ugid_global(HeaderName.ID_GEOMETRY)
-                if field.grid is not None:
-                    archetype = field.grid.archetype
-                    if hasattr(archetype, '_request_dataset'):
-                        if global_ugid.repeat_record is None:
-                            repeat_record = []
-                        else:
-                            repeat_record = global_ugid.repeat_record
-                        repeat_record.append((HeaderName.DATASET_IDENTIFER, archetype._request_dataset.uid))
-                        global_ugid.repeat_record = repeat_record
-
-            iter_kwargs[KeywordArgument.REPEATERS] = repeater
-            iter_kwargs[KeywordArgument.DRIVER] = DriverCSV
-            ocgis_lh(msg='before field.write() in {}'.format(self.__class__), logger='csv.converter',
-                     level=logging.DEBUG)
-            field.write(path, write_mode=write_mode, driver=DriverCSV, iter_kwargs=iter_kwargs)
-            ocgis_lh(msg='after field.write() in {}'.format(self.__class__), logger='csv.converter',
-                     level=logging.DEBUG)
-
-
-class CsvShapefileConverter(CsvConverter):
-    _add_ugeom = True
-
-    def __init__(self, *args, **kwargs):
-        CsvConverter.__init__(self, *args, **kwargs)
-        if self.ops is None:
-            raise ValueError('The argument "ops" may not be "None".')
-
-    def _write_coll_(self, f, coll, add_geom_uid=True):
-        ocgis_lh(msg='entering _write_coll_ in {}'.format(self.__class__), logger='csv-shp.converter',
-                 level=logging.DEBUG)
-
-        # Load the geometries. The geometry identifier is needed for the data write.
-        for field, container in coll.iter_fields(yield_container=True):
-            field.set_abstraction_geom(create_ugid=True)
-
-        # Write the output CSV file.
-        ocgis_lh(msg='before CsvShapefileConverter super call in {}'.format(self.__class__), logger='csv-shp.converter',
-                 level=logging.DEBUG)
-        super(CsvShapefileConverter, self)._write_coll_(f, coll, add_geom_uid=add_geom_uid)
-        ocgis_lh(msg='after CsvShapefileConverter super call in {}'.format(self.__class__), logger='csv-shp.converter',
-                 level=logging.DEBUG)
-
-        # The output geometry identifier shapefile path.
-        if vm.rank == 0:
-            fiona_path = os.path.join(self._get_or_create_shp_folder_(), self.prefix + '_gid.shp')
-        else:
-            fiona_path = None
-        fiona_path = vm.bcast(fiona_path)
-
-        if self.ops.aggregate:
-            ocgis_lh('creating a UGID-GID shapefile is not necessary for aggregated data. use UGID shapefile.',
-                     'conv.csv-shp',
-                     logging.WARN)
-        else:
-            # Write the geometries for each container/field combination.
-
-            for field, container in coll.iter_fields(yield_container=True):
-
-                # The container may be empty. Only add the unique geometry identifier if the container has an
-                # associated geometry.
-                if container.geom is not None:
-                    ugid_var = Variable(name=container.geom.ugid.name, dimensions=field.geom.dimensions,
-                                        dtype=constants.DEFAULT_NP_INT)
-                    ugid_var.get_value()[:] = container.geom.ugid.get_value()[0]
-
-                # Extract the variable components of the geometry file.
-                geom = field.geom.copy()
-                geom = geom.extract()
-                if field.crs is not None:
-                    crs = field.crs.copy()
-                    crs = crs.extract()
-                else:
-                    crs = None
-
-                # If the dataset geometry identifier is not present, create it.
-                gid = field[HeaderName.ID_GEOMETRY].copy()
-                gid = gid.extract()
-
-                # Construct the field to write.
-                field_to_write = Field(geom=geom, crs=crs, uid=field.uid)
-                if container.geom is not None:
-                    field_to_write.add_variable(ugid_var, is_data=True)
-                field_to_write.add_variable(gid, is_data=True)
-
-                # Maintain the field/dataset unique identifier if there is one.
-                if field.uid is not None:
-                    if gid.repeat_record is None:
-                        rr = []
-                    else:
-                        rr = list(gid.repeat_record)
-                    rr.append((HeaderName.DATASET_IDENTIFER, field.uid))
-                    gid.repeat_record = rr
-
-                # Write the field.
-                field_to_write.write(fiona_path, write_mode=f[KeywordArgument.WRITE_MODE], driver=DriverKey.VECTOR)
+import logging
+import os
+from csv import excel
+
+from ocgis import Variable, vm
+from ocgis import constants
+from ocgis.collection.field import Field
+from ocgis.constants import KeywordArgument, HeaderName, DriverKey
+from ocgis.conv.base import AbstractTabularConverter
+from ocgis.driver.csv_ import DriverCSV
+from ocgis.util.logging_ocgis import ocgis_lh
+
+
+class OcgDialect(excel):
+    lineterminator = '\n'
+
+
+class CsvConverter(AbstractTabularConverter):
+    _ext = 'csv'
+
+    def _write_coll_(self, f, coll, add_geom_uid=True):
+        write_mode = f[KeywordArgument.WRITE_MODE]
+        path = f[KeywordArgument.PATH]
+
+        iter_kwargs = {'melted': self.melted}
+
+        for field, container in coll.iter_fields(yield_container=True):
+            if container.geom is not None:
+                repeater = [(self.geom_uid, container.geom.ugid.get_value()[0])]
+            else:
+                repeater = None
+
+            if add_geom_uid and field.geom is not None and field.geom.ugid is None:
+                global_ugid = field.geom.create_ugid_global(HeaderName.ID_GEOMETRY)
+                if field.grid is not None:
+                    archetype = field.grid.archetype
+                    if hasattr(archetype, '_request_dataset'):
+                        if global_ugid.repeat_record is None:
+                            repeat_record = []
+                        else:
+                            repeat_record = global_ugid.repeat_record
+                        repeat_record.append((HeaderName.DATASET_IDENTIFER, archetype._request_dataset.uid))
+                        global_ugid.repeat_record = repeat_record
+
+            iter_kwargs[KeywordArgument.REPEATERS] = repeater
+            iter_kwargs[KeywordArgument.DRIVER] = DriverCSV
+            ocgis_lh(msg='before field.write() in {}'.format(self.__class__), logger='csv.converter',
+                     level=logging.DEBUG)
+            field.write(path, write_mode=write_mode, driver=DriverCSV, iter_kwargs=iter_kwargs)
+            ocgis_lh(msg='after field.write() in {}'.format(self.__class__), logger='csv.converter',
+                     level=logging.DEBUG)
+
+
+class CsvShapefileConverter(CsvConverter):
+    _add_ugeom = True
+
+    def __init__(self, *args, **kwargs):
+        CsvConverter.__init__(self, *args, **kwargs)
+        if self.ops is None:
+            raise ValueError('The argument "ops" may not be "None".')
+
+    def _get_gid_path_(self):
+        return os.path.join(self._get_shp_folder_(), self.prefix + '_gid.shp')
+
+    def _get_secondary_paths_(self):
+        ret = super(CsvShapefileConverter, self)._get_secondary_paths_()
+        if self.ops is not None and not self.ops.aggregate:
+            ret.append(self._get_gid_path_())
+        return ret
+
+    def _write_coll_(self, f, coll, add_geom_uid=True):
+        ocgis_lh(msg='entering _write_coll_ in {}'.format(self.__class__), logger='csv-shp.converter',
+                 level=logging.DEBUG)
+
+        # Load the geometries. The geometry identifier is needed for the data write.
+        for field, container in coll.iter_fields(yield_container=True):
+            field.set_abstraction_geom(create_ugid=True)
+
+        # Write the output CSV file.
+        ocgis_lh(msg='before CsvShapefileConverter super call in {}'.format(self.__class__), logger='csv-shp.converter',
+                 level=logging.DEBUG)
+        super(CsvShapefileConverter, self)._write_coll_(f, coll, add_geom_uid=add_geom_uid)
+        ocgis_lh(msg='after CsvShapefileConverter super call in {}'.format(self.__class__), logger='csv-shp.converter',
+                 level=logging.DEBUG)
+
+        # The output geometry identifier shapefile path.
+        if vm.rank == 0:
+            self._get_or_create_shp_folder_()
+            fiona_path = self._get_gid_path_()
+        else:
+            fiona_path = None
+        fiona_path = vm.bcast(fiona_path)
+
+        if self.ops.aggregate:
+            ocgis_lh('creating a UGID-GID shapefile is not necessary for aggregated data. use UGID shapefile.',
+                     'conv.csv-shp',
+                     logging.WARN)
+        else:
+            # Write the geometries for each container/field combination.
+
+            for field, container in coll.iter_fields(yield_container=True):
+
+                # The container may be empty. Only add the unique geometry identifier if the container has an
+                # associated geometry.
+                if container.geom is not None:
+                    ugid_var = Variable(name=container.geom.ugid.name, dimensions=field.geom.dimensions,
+                                        dtype=constants.DEFAULT_NP_INT)
+                    ugid_var.get_value()[:] = container.geom.ugid.get_value()[0]
+
+                # Extract the variable components of the geometry file.
+                geom = field.geom.copy()
+                geom = geom.extract()
+                if field.crs is not None:
+                    crs = field.crs.copy()
+                    crs = crs.extract()
+                else:
+                    crs = None
+
+                # If the dataset geometry identifier is not present, create it.
+                gid = field[HeaderName.ID_GEOMETRY].copy()
+                gid = gid.extract()
+
+                # Construct the field to write.
+                field_to_write = Field(geom=geom, crs=crs, uid=field.uid)
+                if container.geom is not None:
+                    field_to_write.add_variable(ugid_var, is_data=True)
+                field_to_write.add_variable(gid, is_data=True)
+
+                # Maintain the field/dataset unique identifier if there is one.
+                if field.uid is not None:
+                    if gid.repeat_record is None:
+                        rr = []
+                    else:
+                        rr = list(gid.repeat_record)
+                    rr.append((HeaderName.DATASET_IDENTIFER, field.uid))
+                    gid.repeat_record = rr
+
+                # Write the field.
+                field_to_write.write(fiona_path, write_mode=f[KeywordArgument.WRITE_MODE], driver=DriverKey.VECTOR)
diff --git a/src/ocgis/ops/interpreter.py b/src/ocgis/ops/interpreter.py
index c55f457..60f8b78 100644
--- a/src/ocgis/ops/interpreter.py
+++ b/src/ocgis/ops/interpreter.py
@@ -78,22 +78,33 @@ class OcgInterpreter(Interpreter):
                 # Auxiliary files require that a directory be created.
                 outdir = os.path.join(self.ops.dir_output, prefix)
                 # Create and/or remove the output directory.
+                error = None
                 if vm.rank == 0:
-                    if os.path.exists(outdir):
-                        if env.OVERWRITE:
-                            shutil.rmtree(outdir)
-                        else:
-                            raise IOError('The output directory exists but env.OVERWRITE is False: {0}'.format(outdir))
-                    os.mkdir(outdir)
+                    try:
+                        if os.path.exists(outdir):
+                            if env.OVERWRITE:
+                                shutil.rmtree(outdir)
+                            else:
+                                raise IOError(
+                                    'The output directory exists but env.OVERWRITE is False: {0}'.format(outdir))
+                        os.mkdir(outdir)
+                    except Exception as e:
+                        error = e
                 # Block until output directory is created. Most often the zero rank manages writing, but this is not a
-                # requirement.
-                vm.Barrier()
+                # requirement. All processes stop when the directory cannot be created.
+                error = vm.bcast(error)
+                if error is not None:
+                    raise error
                 # On an exception, the output directory needs to be removed.
                 made_output_directory = True
             else:
                 # with no auxiliary files the output directory will do just fine
                 outdir = self.ops.dir_output
 
+        # Logging and the wrapping of the operations are only changed for the duration of the run.
+        logging_state = ocgis_lh.suspend()
+        vector_wrap = self.ops.vector_wrap
+
         try:
             # configure logging ########################################################################################
 
@@ -146,7 +157,9 @@ class OcgInterpreter(Interpreter):
                 shutil.rmtree(outdir)
             raise
         finally:
-            ocgis_lh.shutdown()
+            ocgis_lh.resume(logging_state)
+            if self.ops.vector_wrap != vector_wrap:
+                self.ops.vector_wrap = vector_wrap
 
             if env.ADD_OPS_MPI_BARRIER:
                 vm.Barrier()
diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 1a556f6..ad0ad6b 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -1013,6 +1013,13 @@ class Prefix(base.StringParameter):
         msg = 'Data output given the following prefix: {0}.'.format(self.value)
         return msg
 
+    def _validate_(self, value):
+        # The prefix names a file or a folder in the output directory. The output directory itself, its parent or another
+        # folder must not be addressed by it.
+        separators = [s for s in (os.sep, os.altsep) if s is not None]
+        if value in ('', os.curdir, os.pardir) or any(s in value for s in separators):
+            raise DefinitionValidationError(self, 'The prefix must be a plain name: "{}".'.format(value))
+
 
 class RegridDestination(base.AbstractParameter):
     name = 'regrid_destination'
diff --git a/src/ocgis/util/logging_ocgis.py b/src/ocgis/util/logging_ocgis.py
index ddac815..4f700e9 100644
--- a/src/ocgis/util/logging_ocgis.py
+++ b/src/ocgis/util/logging_ocgis.py
@@ -61,6 +61,8 @@ class OcgisLogging(object):
         self.callback_level = None
         self.loggers = None
         self.rank = vm.rank
+        self._handlers = []  # handlers opened by the current configuration
+        self._previous = None  # the state of the package logger before it was configured
 
         logging.captureWarnings(None)
 
@@ -70,11 +72,12 @@ class OcgisLogging(object):
             if exc is None:
                 exc = OcgWarning(msg)
             if not env.SUPPRESS_WARNINGS or force:
+                is_capturing = logging._warnings_showwarning is not None
                 logging.captureWarnings(False)
                 try:
                     warn(exc)
                 finally:
-                    logging.captureWarnings(env.SUPPRESS_WARNINGS)
+                    logging.captureWarnings(is_capturing)
 
         if self.callback is not None and self.callback_level <= level:
             if msg is not None:
@@ -126,6 +129,9 @@ class OcgisLogging(object):
             # This is the root logger.
             self.loggers = {}
             self.parent = logging.getLogger('ocgis')
+            if self._previous is None:
+                self._previous = (self.parent.parent, self.parent.handlers, self.parent.level)
+            self._close_handlers_()
             self.parent.parent = None
             self.parent.setLevel(level)
             self.parent.handlers = []
@@ -136,6 +142,7 @@ class OcgisLogging(object):
                 logging.Formatter(fmt='%(name)s: rank={}: %(levelname)s: %(asctime)s: %(message)s'.format(self.rank),
                                   datefmt='%Y-%m-%d %H:%M:%S'))
             self.parent.addHandler(fh)
+            self._handlers.append(fh)
             # This is the stdout logger.
             if to_stream:
                 console = logging.StreamHandler()
@@ -144,6 +151,7 @@ class OcgisLogging(object):
                     fmt='[%(asctime)s]: rank={}: %(levelname)s: %(name)s: %(message)s'.format(self.rank),
                     datefmt='%Y-%m-%d %H:%M:%S'))
                 self.parent.addHandler(console)
+                self._handlers.append(console)
 
             # Capture warnings if requested by the environment.
             logging.captureWarnings(env.SUPPRESS_WARNINGS)
@@ -172,12 +180,44 @@ class OcgisLogging(object):
         return ret
 
     def shutdown(self):
+        """Close what the current configuration opened and put the package logger back as it was before."""
+        self._close_handlers_()
+        if self._previous is not None:
+            logger = logging.getLogger('ocgis')
+            logger.parent, logger.handlers = self._previous[:2]
+            logger.setLevel(self._previous[2])
         self.__init__()
-        try:
-            logging.shutdown()
-            logging.captureWarnings(None)
-        except:
-            pass
+
+    def suspend(self):
+        """
+        Set the current configuration aside without closing it.
+
+        :returns: State to use with :meth:`resume`.
+        """
+        logger = logging.getLogger('ocgis')
+        is_capturing = logging._warnings_showwarning is not None
+        state = (self.__dict__.copy(), logger.parent, logger.handlers, logger.level, is_capturing)
+        self.__init__()
+        logging.captureWarnings(is_capturing)
+        return state
+
+    def resume(self, state):
+        """Shut down the current configuration and continue with the one set aside by :meth:`suspend`."""
+        self.shutdown()
+        self.__dict__.update(state[0])
+        logger = logging.getLogger('ocgis')
+        logger.parent, logger.handlers = state[1:3]
+        logger.setLevel(state[3])
+        logging.captureWarnings(state[4])
+
+    def _close_handlers_(self):
+        for handler in self._handlers:
+            try:
+                handler.flush()
+                handler.close()
+            except Exception:
+                pass
+        self._handlers = []
 
     def _log_versions_(self):
         versions = get_versions()
-- 
2.43.0


From 503dbf25431f3719f69a8746d832ab24b9b78684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 52/59] fix: allowed empty results are regridded, aggregated
 and transformed like others, one per geometry; given fields are not changed;
 all-masked spatial aggregates are masked

---
 src/ocgis/calc/base.py        |  7 +++++-
 src/ocgis/collection/field.py |  4 +--
 src/ocgis/ops/engine.py       | 46 +++++++++++++++++++++--------------
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 4dd9e1c..d9c8a66 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -502,7 +502,12 @@ class AbstractFunction(AbstractOcgisObject):
                     if self.spatial_aggregation:
                         # Weights are not currently conformed so should not be used.
                         res = self.aggregate_spatial(res, None)
-                        carr_fill.data[ir, it, il, :, :] = res
+                        if np.ma.is_masked(res):
+                            # There is no value if all elements are masked.
+                            carr_fill.mask[ir, it, il, :, :] = True
+                        else:
+                            carr_fill.data[ir, it, il, :, :] = res
+                            carr_fill.mask[ir, it, il, :, :] = False
                     else:
                         try:
                             carr_fill.data[ir, it, il, :, :] = res.data
diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index f400aac..e5431bc 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1003,7 +1003,7 @@ class Field(VariableCollection):
             ret = decode_cf(ret)
         return ret
 
-    def unwrap(self):
+    def unwrap(self, inplace=True):
         """
         Unwrap the field's coordinates contained in its grid and/or geometry.
         
@@ -1012,7 +1012,7 @@ class Field(VariableCollection):
 
         raise_if_empty(self)
 
-        wrap_or_unwrap(self, WrapAction.UNWRAP)
+        wrap_or_unwrap(self, WrapAction.UNWRAP, inplace=inplace)
 
     def update_crs(self, to_crs, from_crs=None):
         """
diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index e008936..744daac 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -124,7 +124,8 @@ class OperationsEngine(AbstractOcgisObject):
 
             for coll in self._process_subsettables_(rds):
                 # If there are calculations, do those now and return a collection.
-                if not vm.is_null and self.cengine is not None:
+                is_allowed_empty = self.ops.allow_empty and coll.is_empty
+                if not vm.is_null and self.cengine is not None and not is_allowed_empty:
                     ocgis_lh('Starting calculations.', self._subset_log)
                     raise_if_empty(coll)
 
@@ -244,11 +245,13 @@ class OperationsEngine(AbstractOcgisObject):
                     # Spatially reorder the data.
                     ocgis_lh(msg='before spatial reorder', logger=self._subset_log, level=logging.DEBUG)
                     if self.ops.spatial_reorder:
-                        self._update_spatial_order_(field)
+                        field = self._update_spatial_order_(field)
 
                     # Extrapolate the spatial bounds if requested.
                     # TODO: Rename "interpolate" to "extrapolate".
                     if self.ops.interpolate_spatial_bounds:
+                        # Bounds are added to the field in-place. The source field must not be changed.
+                        field = field.copy()
                         self._update_bounds_extrapolation_(field)
 
         # This error is related to subsetting by time or level. Spatial subsetting occurs below.
@@ -256,18 +259,19 @@ class OperationsEngine(AbstractOcgisObject):
             if self.ops.allow_empty:
                 ocgis_lh(msg='time or level subset empty but empty returns allowed', logger=self._subset_log,
                          level=logging.WARN)
-                coll = self._get_initialized_collection_()
-                name = '_'.join([rd.field_name for rd in rds])
-                field = Field(name=name, is_empty=True)
-                coll.add_field(field, None)
-                try:
+                # There is an empty result for each of the selection geometries.
+                if self.ops.slice is not None or self.ops.geom is None:
+                    itr = [None]
+                else:
+                    itr = self.ops.geom
+                for subset_field in itr:
+                    coll = self._get_initialized_collection_()
+                    coll.add_field(Field(name=alias, is_empty=True), deepcopy(subset_field))
                     yield coll
-                finally:
-                    return
+                return
             else:
                 # Raise an exception as empty subsets are not allowed.
-                ocgis_lh(exc=ExtentError(message=str(e)), alias=str([rd.field_name for rd in rds]),
-                         logger=self._subset_log)
+                ocgis_lh(exc=ExtentError(message=str(e)), alias=alias, logger=self._subset_log)
 
         # Set iterator based on presence of slice. Slice always overrides geometry.
         if self.ops.slice is not None:
@@ -353,9 +357,8 @@ class OperationsEngine(AbstractOcgisObject):
                 vm.create_subcomm_by_emptyable(SubcommName.FIELD_SUBSET, sfield, is_current=True, clobber=True)
 
                 if not vm.is_null:
-                    if not sfield.is_empty and not self.ops.allow_empty:
-                        raise_if_empty(sfield)
-
+                    # Empty fields may only occur if empty returns are allowed.
+                    if not sfield.is_empty:
                         # If the base size is being requested, bypass the rest of the operations.
                         if not self._request_base_size_only:
                             # Perform regridding operations if requested.
@@ -559,15 +562,18 @@ class OperationsEngine(AbstractOcgisObject):
             ocgis_lh(msg=msg, logger=self._subset_log, level=logging.WARNING)
 
     def _update_spatial_order_(self, field):
-        _update_wrapping_(self, field)
+        field = _update_wrapping_(self, field)
         if field.grid is not None:
             wrapped_state = field.grid.wrapped_state
             if wrapped_state == WrappedState.WRAPPED:
+                # Arrays are reordered in-place. The source field must not be changed.
+                field = deepcopy(field)
                 field.grid.reorder()
             else:
                 msg = 'Reorder not relevant for wrapped state "{}". Doing nothing.'.format(
                     str(wrapped_state))
                 ocgis_lh(msg=msg, logger=self._subset_log, level=logging.WARN)
+        return field
 
 
 def _update_aggregation_wrapping_crs_(obj, alias, sfield, subset_sdim, subset_ugid):
@@ -671,7 +677,7 @@ def _update_aggregation_wrapping_crs_(obj, alias, sfield, subset_sdim, subset_ug
         sfield.update_crs(obj.ops.output_crs)
 
     # Wrap or unwrap the data if the coordinate system permits.
-    _update_wrapping_(obj, sfield)
+    sfield = _update_wrapping_(obj, sfield)
 
     ocgis_lh('leaving _update_aggregation_wrapping_crs_', obj._subset_log, level=logging.DEBUG)
 
@@ -684,15 +690,19 @@ def _update_wrapping_(obj, field_object):
 
     :param obj: :class:`ocgis.driver.subset.OperationsEngine`
     :param field_object: :class:`ocgis.Field`
+    :return: The updated field. The incoming field object, which may be used for other subsets, is not changed.
+    :rtype: :class:`ocgis.Field`
     """
     if obj.ops.spatial_wrapping is not None:
         if field_object.crs is not None and field_object.crs.is_geographic:
             as_enum = obj.ops._get_object_('spatial_wrapping').as_enum
             if field_object.wrapped_state != as_enum:
+                field_object = field_object.copy()
                 if as_enum == WrapAction.WRAP:
-                    field_object.wrap()
+                    field_object.wrap(inplace=False)
                 else:
-                    field_object.unwrap()
+                    field_object.unwrap(inplace=False)
+    return field_object
 
 
 def get_data_model(ops):
-- 
2.43.0


From 61e97422897aa28706891fd215a3fcf4b1d0d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 53/59] fix: spatial averages over transposed and mixed
 variables, elements reduced to edges or nothing have no weight, variables
 keep their own masks in grid subsets, union over part of the dimensions

---
 src/ocgis/spatial/grid.py  |  3 ++-
 src/ocgis/util/helpers.py  |  2 +-
 src/ocgis/variable/geom.py | 48 +++++++++++++++++++++++---------------
 3 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 3ae69bc..76243b9 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1300,7 +1300,8 @@ def grid_set_geometry_variable_on_parent(func, grid, name, alloc_only=False):
 
 def grid_set_mask_cascade(grid):
     members = grid.get_member_variables(include_bounds=True)
-    grid.parent.set_mask(grid.mask_variable, exclude=members)
+    # Variables keep their own masked values.
+    grid.parent.set_mask(grid.mask_variable, exclude=members, update=True)
 
 
 def expand_grid(grid):
diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 2db871b..972306f 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -702,7 +702,7 @@ def get_swap_chain(actual, desired):
     assert set(actual) == set(desired)
     swap_ops = []
 
-    running_archetype = deepcopy(actual)
+    running_archetype = list(actual)
     for swap_src in range(len(actual)):
         if running_archetype[swap_src] != desired[swap_src]:
             swap_dst = running_archetype.index(desired[swap_src])
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 2a50b19..fe981b0 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -310,15 +310,16 @@ class GeometryVariable(AbstractSpatialVariable):
 
         >>> self.area / self.area.max()
 
-        Any geometries with zero area (points) are given an area of ``1.0`` for the purposes of weight calculation.
+        If no geometry has an area (points), geometries are given an area of ``1.0`` for the purposes of weight
+        calculation. Otherwise, geometries without an area (a polygon reduced to an edge) have no weight. Empty geometries
+        never have a weight.
 
         :return:  weights as a float masked array
         :rtype: :class:`numpy.ma.MaskedArray`
         """
 
-        area = self.area
-        area.data[area.data == 0] = 1.0
-        return area / area.max()
+        area = self._get_area_for_weights_()
+        return area / (area.filled(0).max() or 1.0)
 
     def as_shapely(self):
         """
@@ -854,7 +855,9 @@ class GeometryVariable(AbstractSpatialVariable):
         # Add the geometries to the index.
         r_add = si.add
         for idx, geom in iter_array(target, return_value=True):
-            r_add(idx[0], geom)
+            # Empty geometries have no bounds.
+            if not geom.is_empty:
+                r_add(idx[0], geom)
 
         return si
 
@@ -922,6 +925,8 @@ class GeometryVariable(AbstractSpatialVariable):
             to_union = deque()
             for indices in product(*[list(range(dl)) for dl in dimension_lengths]):
                 dslc = {dimension_names[ii]: indices[ii] for ii in range(len(dimension_names))}
+                # Dimensions which are not unioned.
+                dslc.update({dn: idx for dn, idx in dst_slc.items() if dn in self.dimension_names})
                 sub = self[dslc]
                 sub_mask = sub.get_mask()
                 if sub_mask is None:
@@ -948,7 +953,7 @@ class GeometryVariable(AbstractSpatialVariable):
 
             # Fill the return geometry variable value with the unioned geometry.
             to_fill = ret[dst_slc].get_value()
-            to_fill[0] = unioned
+            to_fill[(0,) * to_fill.ndim] = unioned
 
         # Spatial average shared dimensions.
         if spatial_average is not None:
@@ -974,22 +979,27 @@ class GeometryVariable(AbstractSpatialVariable):
                 sub_geom = self[{nsa: slice(None) for nsa in names_to_slice_all}]
                 weights = sub_geom.weights
                 # The weights are relative to the largest area on this rank. It is needed to combine values across ranks.
-                area = sub_geom.area
-                area.data[area.data == 0] = 1.0
-                max_area = area.filled(0).max()
+                max_area = sub_geom._get_area_for_weights_().filled(0).max()
+
+                # Swap weight axes to make sure they align with the target variable.
+                swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
+                if len(swap_chain) > 0:
+                    weights = weights.copy()
+                for sc in swap_chain:
+                    weights = weights.swapaxes(*sc)
 
                 # Path if there are iteration dimensions. Checks for axes ordering in addition.
                 if len(range_to_itr) > 0:
                     # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
                     # dimensions aggregated by the weighted average.
-                    new_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
-                    new_dimensions.append(union_dimension)
+                    target_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
+                    target_dimensions.append(union_dimension)
 
                     # Prepare the spatially averaged variable.
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
                     target._value = None
-                    target.set_dimensions(new_dimensions)
+                    target.set_dimensions(target_dimensions)
                     if np.issubdtype(target.dtype, np.integer):
                         # An average is not a whole number.
                         target.dtype = env.NP_FLOAT
@@ -997,13 +1007,6 @@ class GeometryVariable(AbstractSpatialVariable):
                     target_mask = np.zeros(target.shape, dtype=bool)
                     sum_of_weights = np.zeros(target.shape, dtype=float)
 
-                    # Swap weight axes to make sure they align with the target variable.
-                    swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
-                    if len(swap_chain) > 0:
-                        weights = weights.copy()
-                    for sc in swap_chain:
-                        weights = weights.swapaxes(*sc)
-
                     # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
                     len_names_to_itr = len(names_to_itr)
                     slice_none = slice(None)
@@ -1214,6 +1217,13 @@ class GeometryVariable(AbstractSpatialVariable):
         kwargs[KeywordArgument.DRIVER] = DriverKey.VECTOR
         lself.parent.write(*args, **kwargs)
 
+    def _get_area_for_weights_(self):
+        area = self.area
+        if area.filled(0).max() == 0:
+            for idx in np.ndindex(*area.shape):
+                area.data[idx] = 0.0 if getattr(self.get_value()[idx], 'is_empty', False) else 1.0
+        return np.ma.masked_where(area.data == 0, area)
+
     def _get_extent_(self):
         if self.size > 1:
             raise RequestableFeature('Extent not supported for more than one geometry.')
-- 
2.43.0


From ee4bc1c1e58a15bf158304bc26d6f0165123e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:00 +0000
Subject: [PATCH 54/59] fix: tiled computation follows the variables' own
 dimension order and applies time and level subsets with optimizations, files
 without data for multivariate functions, tiled multivariate expressions

---
 src/ocgis/calc/base.py        | 35 +++++++++++++++++----------------
 src/ocgis/ops/engine.py       | 35 ++++++++++++++++-----------------
 src/ocgis/util/large_array.py | 37 +++++++++++++++++++++++------------
 3 files changed, 59 insertions(+), 48 deletions(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index d9c8a66..7ccf2ba 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -844,29 +844,30 @@ class AbstractMultivariateFunction(AbstractFunction):
         keys = list(calculation_targets.keys())
         crosswalks = [self._get_dimension_crosswalk_(calculation_targets[k]) for k in keys]
         variable_shapes = [calculation_targets[k].shape for k in keys]
-        arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
         archetype = calculation_targets[keys[0]]
         fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only,
                                       add_repeat_record_archetype_name=False)
         fill.units = self.get_output_units()
-        arr_fill = self.get_variable_value(fill)
-
-        itrs = [self._iter_conformed_arrays_(crosswalks[idx], variable_shapes[idx], arrs[idx], arr_fill, None)
-                for idx in range(len(crosswalks))]
-
-        for yld in zip(*itrs):
-            parms = {}
-            for idx in range(len(keys)):
-                parms[keys[idx]] = yld[idx][0]
-            for k, v in self.parms.items():
-                if k not in self.required_variables:
-                    parms.update({k: v})
-            res = self.calculate(**parms)
-            carr_fill = yld[0][1]
-            carr_fill.data[:] = res.data
-            carr_fill.mask[:] = res.mask
 
         if not self.file_only:
+            arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
+            arr_fill = self.get_variable_value(fill)
+
+            itrs = [self._iter_conformed_arrays_(crosswalks[idx], variable_shapes[idx], arrs[idx], arr_fill, None)
+                    for idx in range(len(crosswalks))]
+
+            for yld in zip(*itrs):
+                parms = {}
+                for idx in range(len(keys)):
+                    parms[keys[idx]] = yld[idx][0]
+                for k, v in self.parms.items():
+                    if k not in self.required_variables:
+                        parms.update({k: v})
+                res = self.calculate(**parms)
+                carr_fill = yld[0][1]
+                carr_fill.data[:] = res.data
+                carr_fill.mask[:] = res.mask
+
             fill.set_value(arr_fill)
 
         if self.tgd is not None:
diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 744daac..9ba853d 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -235,24 +235,23 @@ class OperationsEngine(AbstractOcgisObject):
             # Break out of operations if the rank is empty.
             vm.create_subcomm_by_emptyable(SubcommName.FIELD_GET, field, is_current=True, clobber=True)
             if not vm.is_null:
-                if not has_field_optimizations:
-                    if field.is_empty:
-                        raise ValueError('No empty fields allowed.')
-
-                    # Time, level, etc. subsets.
-                    field = self._get_nonspatial_subset_(field)
-
-                    # Spatially reorder the data.
-                    ocgis_lh(msg='before spatial reorder', logger=self._subset_log, level=logging.DEBUG)
-                    if self.ops.spatial_reorder:
-                        field = self._update_spatial_order_(field)
-
-                    # Extrapolate the spatial bounds if requested.
-                    # TODO: Rename "interpolate" to "extrapolate".
-                    if self.ops.interpolate_spatial_bounds:
-                        # Bounds are added to the field in-place. The source field must not be changed.
-                        field = field.copy()
-                        self._update_bounds_extrapolation_(field)
+                if not has_field_optimizations and field.is_empty:
+                    raise ValueError('No empty fields allowed.')
+
+                # Time, level, etc. subsets.
+                field = self._get_nonspatial_subset_(field)
+
+                # Spatially reorder the data.
+                ocgis_lh(msg='before spatial reorder', logger=self._subset_log, level=logging.DEBUG)
+                if self.ops.spatial_reorder:
+                    field = self._update_spatial_order_(field)
+
+                # Extrapolate the spatial bounds if requested.
+                # TODO: Rename "interpolate" to "extrapolate".
+                if self.ops.interpolate_spatial_bounds:
+                    # Bounds are added to the field in-place. The source field must not be changed.
+                    field = field.copy()
+                    self._update_bounds_extrapolation_(field)
 
         # This error is related to subsetting by time or level. Spatial subsetting occurs below.
         except EmptySubsetError as e:
diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index db2d24c..4e9a9d9 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -7,8 +7,10 @@ from ocgis import constants
 from ocgis.calc import tile
 from ocgis.calc.base import AbstractMultivariateFunction
 from ocgis.calc.engine import CalculationEngine
+from ocgis.calc.eval_function import MultivariateEvalFunction
 from ocgis.constants import TagName
 from ocgis.ops.core import OcgOperations
+from ocgis.ops.engine import OperationsEngine
 from ocgis.util.helpers import ProgressBar
 
 
@@ -55,7 +57,8 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
 
     # Determine if we are working with a multivariate function.
     if ops.calc is not None:
-        if CalculationEngine._check_calculation_members_(ops.calc, AbstractMultivariateFunction):
+        multivariate_classes = [AbstractMultivariateFunction, MultivariateEvalFunction]
+        if any(CalculationEngine._check_calculation_members_(ops.calc, k) for k in multivariate_classes):
             # Only one multivariate calculation allowed.
             assert len(ops.calc) == 1
             has_multivariate = True
@@ -126,7 +129,9 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             try:
                 # tgd_field = ops.dataset.first().get()
                 archetype_dataset = list(ops.dataset)[0]
-                tgd_field = archetype_dataset.get()
+                tgd_field = archetype_dataset.get(format_time=ops.format_time)
+                # Groups index the time coordinates following any time subsets.
+                tgd_field = OperationsEngine(ops)._get_nonspatial_subset_(tgd_field)
                 template_tgd = tgd_field.temporal.get_grouping(deepcopy(ops.calc_grouping))
                 if not has_multivariate:
                     key = archetype_dataset.field_name
@@ -195,19 +200,17 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
                         slice_col = slice(col[0] - col_offset, col[1] - col_offset)
                         # if there is a spatial mask, update accordingly
                         if mask_spatial is not None:
-                            set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col)
+                            set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col,
+                                                      spatial_dimensions=field.grid.dimensions)
                             fill_mask = field.grid.get_mask(create=True)
                             fill_mask[:, :] = mask_spatial[slice_row, slice_col]
                             fill_mask = np.ma.array(np.zeros(fill_mask.shape), mask=fill_mask)
                             fds.variables[field.grid.mask_variable.name][slice_row, slice_col] = fill_mask
                         fill_value = variable.get_masked_value()
-                        # fill the netCDF container variable adjusting for shape
-                        if len(vref.shape) == 3:
-                            vref[:, slice_row, slice_col] = fill_value
-                        elif len(vref.shape) == 4:
-                            vref[:, :, slice_row, slice_col] = fill_value
-                        else:
-                            raise NotImplementedError(vref.shape)
+                        # fill the netCDF container variable in its own dimension order
+                        spatial_slices = dict(zip([d.name for d in field.grid.dimensions], [slice_row, slice_col]))
+                        fill_slice = tuple([spatial_slices.get(d.name, slice(None)) for d in variable.dimensions])
+                        vref[fill_slice] = fill_value
 
                         fds.sync()
                 if verbose:
@@ -225,7 +228,7 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
     return fill_file
 
 
-def set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col):
+def set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col, spatial_dimensions=None):
     """
     Update the mask on ``variable`` in-place to match ``mask_spatial``. The array slice updated is constrained by
     ``slice_row`` and ``slice_col``.
@@ -239,10 +242,18 @@ def set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col):
     :type slice_row: slice
     :param slice_col: The column slice to update.
     :type slice_col: slice
+    :param spatial_dimensions: The row and column dimensions. If ``None``, the variable's last two dimensions are used.
+    :type spatial_dimensions: sequence of :class:`ocgis.Dimension`
     """
 
     fill_mask = np.zeros(variable.shape, dtype=bool)
-    fill_mask[..., :, :] = mask_spatial[slice_row, slice_col]
+    if spatial_dimensions is None:
+        axes = [variable.ndim - 2, variable.ndim - 1]
+    else:
+        names = [d.name for d in variable.dimensions]
+        axes = [names.index(d.name) for d in spatial_dimensions]
+    # A view of the mask with the row and column last.
+    np.moveaxis(fill_mask, axes, [-2, -1])[...] = mask_spatial[slice_row, slice_col]
     vmask = variable.get_mask(create=True)
-    vmask = np.logical_or(fill_mask, vmask[:, :])
+    vmask = np.logical_or(fill_mask, vmask)
     variable.set_mask(vmask)
-- 
2.43.0


From af68be2ca5f09ec5f994daa48d51059de0b1c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:21 +0000
Subject: [PATCH 55/59] fix: pieces of short dimensions, decompositions asked
 for by number, chunk results written back in the variable's own dimension
 order, coarse source cells kept around chunks

---
 src/ocgis/driver/nc.py            |  4 ++-
 src/ocgis/spatial/base.py         | 11 ++++--
 src/ocgis/spatial/grid.py         |  2 +-
 src/ocgis/spatial/grid_chunker.py | 57 +++++++++++++++++--------------
 src/ocgis/variable/crs.py         |  8 ++++-
 5 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index a1a72f2..c0e20e1 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -542,7 +542,9 @@ def create_slices_for_dimension(size, splits):
     slices = []
     for rank in range(splits):
         dimension = ompi.get_dimension(dimname, rank=rank)
-        slices.append(dimension.bounds_local)
+        # There may be fewer pieces than splits for short dimensions.
+        if not dimension.is_empty:
+            slices.append(dimension.bounds_local)
     return slices
 
 
diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index c4ba102..acfac80 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -10,7 +10,7 @@ from shapely.geometry import box
 from ocgis import Variable, SourcedVariable, vm
 from ocgis.base import raise_if_empty, is_field, AbstractInterfaceObject
 from ocgis.constants import KeywordArgument, VariableName, WrapAction, DMK, SPATIALDECOMP_BUFFER
-from ocgis.exc import GridDeficientError
+from ocgis.exc import EmptySubsetError, GridDeficientError
 from ocgis.variable import crs
 from ocgis.variable.base import AbstractContainer
 
@@ -788,7 +788,12 @@ def iter_spatial_decomposition(sobj, splits, **kwargs):
         if yield_idx is not None:
             if ctr < yield_idx:
                 continue
-            else:
+            elif ctr > yield_idx:
                 break
-        yield sobj.get_intersects(sp, **kwargs)
+        try:
+            subset = sobj.get_intersects(sp, **kwargs)
+        except EmptySubsetError:
+            # There are no elements in this piece.
+            continue
+        yield subset
     # ------------------------------------------------------------------------------------------------------------------
diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 76243b9..26951b6 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1265,7 +1265,7 @@ def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=Fals
             for ii in range(grid.shape[0]):
                 ety[ii, :] = ty[ii]
             for jj in range(grid.shape[1]):
-                etx[:, jj] = tx[ii]
+                etx[:, jj] = tx[jj]
             tx = etx
             ty = ety
         if np.any(np.logical_and(tx, ty)):
diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 5c08f8f..65da586 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -180,7 +180,8 @@ class GridChunker(AbstractOcgisObject):
         """
         Spatial distance in units of the destination grid to buffer the destination grid chunk's spatial extent when
         subsetting the associated source grid. Defaults to the higher spatial resolution times a modifier
-        (:attr:`ocgis.constants.GridChunkerConstants.BUFFER_RESOLUTION_MODIFIER`).
+        (:attr:`ocgis.constants.GridChunkerConstants.BUFFER_RESOLUTION_MODIFIER`) and to no less than the source's
+        resolution.
 
         :param float value: Spatial buffer value
         :rtype: float
@@ -201,6 +202,8 @@ class GridChunker(AbstractOcgisObject):
                 else:
                     target_resolution = src_grid_resolution
                 ret = GridChunkerConstants.BUFFER_RESOLUTION_MODIFIER * target_resolution
+                # Source cells may be selected by their centers. Coarse source cells must remain if they overlap.
+                ret = max(ret, src_grid_resolution)
             except NotImplementedError:
                 # Unstructured grids do not have an associated resolution unless they are isomorphic.
                 if isinstance(self.src_grid, GridUnstruct) or isinstance(self.dst_grid, GridUnstruct):
@@ -424,39 +427,41 @@ class GridChunker(AbstractOcgisObject):
             v = data_variables
 
         dst_master_field = RequestDataset(dst_master_path, variable=v).get()
+        y_name = dst_master_field.grid.dimensions[0].name
+        x_name = dst_master_field.grid.dimensions[1].name
         for data_variable in dst_master_field.data_variables:
             assert not data_variable.has_allocated_value
             if data_variable.ndim == 3:
-                for time_index in range(dst_master_field.time.shape[0]):
-                    for vidx, source_path in enumerate(joined):
-                        source_path = os.path.join(dst_wd, source_path)
-                        slc = {dst_master_field.time.dimensions[0].name: time_index,
-                               dst_master_field.y.dimensions[0].name: slice(None),
-                               dst_master_field.x.dimensions[0].name: slice(None)}
-                        source_field = RequestDataset(source_path).create_field()
-                        try:
-                            source_data = source_field[data_variable.name][slc]
-                        except KeyError:
-                            if data_variable.name not in source_field.keys():
-                                msg = "The destination variable '{}' is not in the destination file '{}'. Was SMM applied?".format(
-                                    data_variable.name, source_path)
-                                raise KeyError(msg)
-                            else:
-                                raise
-                        assert not source_data.has_allocated_value
-                        with nc.Dataset(dst_master_path, 'a') as ds:
-                            ds.variables[data_variable.name][time_index, y_bounds[vidx][0]:y_bounds[vidx][1],
-                            x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_value()
+                time_name = dst_master_field.time.dimensions[0].name
+                time_slices = [{time_name: time_index} for time_index in range(dst_master_field.time.shape[0])]
             elif data_variable.ndim == 2:
+                time_slices = [{}]
+            else:
+                raise NotImplementedError(data_variable.ndim)
+            for time_slice in time_slices:
                 for vidx, source_path in enumerate(joined):
                     source_path = os.path.join(dst_wd, source_path)
-                    source_data = RequestDataset(source_path).get()[data_variable.name]
+                    source_field = RequestDataset(source_path).create_field()
+                    if data_variable.name not in source_field.keys():
+                        msg = "The destination variable '{}' is not in the destination file '{}'. Was SMM applied?".format(
+                            data_variable.name, source_path)
+                        raise KeyError(msg)
+                    source_data = source_field[data_variable.name]
+                    slc = time_slice.copy()
+                    slc.update({y_name: slice(None), x_name: slice(None)})
+                    source_data = source_data[slc]
                     assert not source_data.has_allocated_value
+                    # The master variable is filled in its own dimension order.
+                    fill = time_slice.copy()
+                    fill.update({y_name: slice(y_bounds[vidx][0], y_bounds[vidx][1]),
+                                 x_name: slice(x_bounds[vidx][0], x_bounds[vidx][1])})
+                    fill = tuple([fill[d.name] for d in data_variable.dimensions])
+                    source_value = source_data.get_value()
+                    if len(time_slice) > 0:
+                        time_axis = [d.name for d in data_variable.dimensions].index(time_name)
+                        source_value = np.squeeze(source_value, axis=time_axis)
                     with nc.Dataset(dst_master_path, 'a') as ds:
-                        ds.variables[data_variable.name][y_bounds[vidx][0]:y_bounds[vidx][1],
-                        x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_value()
-            else:
-                raise NotImplementedError(data_variable.ndim)
+                        ds.variables[data_variable.name][fill] = source_value
 
     def iter_dst_grid_slices(self, yield_idx=None):
         """
diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index ecd4bc5..61c4fad 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -296,12 +296,18 @@ class AbstractCRS(AbstractInterfaceObject):
                 bbox_rhs[0] = buffered_bbox[0] + 360.
                 bbox_rhs[2] = 360. + rhs_tol
 
-                bboxes = [buffered_bbox, bbox_rhs]
+                if bbox_rhs[0] <= buffered_bbox[2]:
+                    # The boxes overlap.
+                    bboxes = [[buffered_bbox[0], buffered_bbox[1], max(buffered_bbox[2], bbox_rhs[2]), buffered_bbox[3]]]
+                else:
+                    bboxes = [buffered_bbox, bbox_rhs]
             else:
                 bboxes = [buffered_bbox]
             bboxes = [box(*b) for b in bboxes]
             if len(bboxes) > 1:
                 svalue[0] = MultiPolygon(bboxes)
+            else:
+                svalue[0] = bboxes[0]
 
         return subset_geom
 
-- 
2.43.0


From 40014a760d3e831251d3cfbca94aa077a4696473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:35 +0000
Subject: [PATCH 56/59] fix: vector and tabular outputs with names alike,
 several geometries or data sets, masked text, narrower first variables, and
 other columns when appending

---
 src/ocgis/collection/field.py  | 17 ++++++++++--
 src/ocgis/conv/base.py         |  8 ++++--
 src/ocgis/driver/csv_.py       | 25 ++++++++++++++++++
 src/ocgis/driver/vector.py     | 48 ++++++++++++++++++++++++++++++----
 src/ocgis/variable/geom.py     |  4 +++
 src/ocgis/variable/iterator.py |  7 +----
 6 files changed, 94 insertions(+), 15 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index e5431bc..1cbd35e 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -2,6 +2,7 @@ import logging
 from collections import OrderedDict
 from collections import deque
 from copy import deepcopy
+from itertools import chain
 
 from shapely.geometry import shape
 
@@ -680,9 +681,14 @@ class Field(VariableCollection):
             if len(tagged_variables) == 0:
                 msg = 'Tag "{}" has no associated variables. Nothing to iterate.'.format(tag)
                 raise ValueError(msg)
+            # The lead variable must have the dimensions of the others.
             variable = tagged_variables[0]
-            if len(tagged_variables) > 1:
-                followers += tagged_variables[1:]
+            names = set(chain(*[get_dimension_names(t.dimensions) for t in tagged_variables]))
+            for tagged_variable in tagged_variables:
+                if names.issubset(get_dimension_names(tagged_variable.dimensions)):
+                    variable = tagged_variable
+                    break
+            followers += [t for t in tagged_variables if t.name != variable.name]
         else:
             variable = get_variables(variable, self)[0]
 
@@ -717,6 +723,13 @@ class Field(VariableCollection):
         if found is not None:
             found = [ii[0] for ii in found]
         repeater_headers = itr_for_repeaters.get_repeaters(headers_only=True, found=found)
+        if standardize and self.uid is not None and self.x is not None and self.y is not None:
+            if HeaderName.DATASET_IDENTIFER not in repeater_headers:
+                # The dataset identifier usually comes from the coordinate variables following the data.
+                did_record = (HeaderName.DATASET_IDENTIFER, self.uid)
+                kwargs[KeywordArgument.REPEATERS] = list(kwargs.get(KeywordArgument.REPEATERS) or []) + [did_record]
+                if found is None:
+                    repeater_headers.append(did_record[0])
 
         if standardize:
             if header_map is None:
diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 57aa28d..b13969f 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -181,6 +181,7 @@ class AbstractCollectionConverter(AbstractFileConverter):
 
         # Indicates if user geometries should be written to file.
         write_ugeom = False
+        written_ugids = set()
 
         # Path to the output object.
         f = {KeywordArgument.PATH: self.path}
@@ -217,8 +218,11 @@ class AbstractCollectionConverter(AbstractFileConverter):
             if write_ugeom:
                 with vm.scoped(SubcommName.UGEOM_WRITE, [0]):
                     if not vm.is_null:
-                        for subset_field in list(coll.children.values()):
-                            subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
+                        for ugid, subset_field in list(coll.children.items()):
+                            # The same geometry may select from several datasets.
+                            if ugid not in written_ugids:
+                                subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
+                                written_ugids.add(ugid)
 
         # The metadata and dataset descriptor files may only be written if OCGIS operations are present.
         ops = self.ops
diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index 9501e2c..70e1052 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -77,6 +77,8 @@ class DriverCSV(AbstractTabularDriver):
             with driver_scope(cls, opened_or_path, mode='w') as opened:
                 writer = csv.DictWriter(opened, fieldnames)
                 writer.writeheader()
+        if write_mode == MPIWriteMode.FILL and not cls.inquire_opened_state(opened_or_path):
+            fieldnames = cls._get_appended_fieldnames_(opened_or_path, fieldnames)
         if write_mode != MPIWriteMode.TEMPLATE:
             for current_rank_write in vm.ranks:
                 if vm.rank == current_rank_write:
@@ -86,5 +88,28 @@ class DriverCSV(AbstractTabularDriver):
                             writer.writerow(record)
                 vm.barrier()
 
+    @staticmethod
+    def _get_appended_fieldnames_(path, fieldnames):
+        """
+        Get the field names for records added to an existing file. Records in the file are written again if there are
+        names not in the file's header.
+        """
+
+        if vm.rank == 0:
+            with open(path) as source:
+                reader = csv.DictReader(source)
+                existing = list(reader.fieldnames)
+                rows = list(reader)
+            new = [f for f in fieldnames if f not in existing]
+            if len(new) > 0:
+                existing += new
+                with open(path, 'w') as sink:
+                    writer = csv.DictWriter(sink, existing)
+                    writer.writeheader()
+                    writer.writerows(rows)
+        else:
+            existing = None
+        return vm.bcast(existing)
+
     def _init_variable_from_source_main_(self, *args, **kwargs):
         pass
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index d87b740..162cf77 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -1,12 +1,15 @@
 import datetime
 import itertools
+import json
+import os
 from collections import OrderedDict
 from copy import deepcopy
 
 import fiona
 import numpy as np
 from ocgis import constants, vm
-from ocgis.constants import MPIWriteMode, DimensionName, KeywordArgument, DriverKey, DMK, SourceIndexType, VariableName
+from ocgis.constants import MPIWriteMode, DimensionName, KeywordArgument, DriverKey, DMK, SourceIndexType, VariableName, \
+    HeaderName
 from ocgis.driver.base import driver_scope, AbstractTabularDriver, get_archetype_record, get_variables_to_load
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.environment import get_dtype
@@ -126,6 +129,8 @@ class DriverVector(AbstractTabularDriver):
                     dv = row['properties'][v.source_name]
                     if dv is None:
                         # Property value may be none. Set the data to masked if this is the case.
+                        if ret[v.name].dtype == object:
+                            ret[v.name].data[idx] = ''
                         ret[v.name].mask[idx] = True
                     else:
                         ret[v.name][idx] = dv
@@ -219,21 +224,37 @@ class DriverVector(AbstractTabularDriver):
                     fiona_crs = field.crs.value
             archetype_record = get_archetype_record(field, find_values=True, **iter_kwargs)
             archetype_record = format_record_for_fiona(fiona_driver, archetype_record)
+            if iter_kwargs.get(KeywordArgument.MELTED):
+                # Values of all variables are in the same column.
+                dtypes = [dv.dtype for dv in field.data_variables]
+                if any([dtype == object for dtype in dtypes]):
+                    archetype_record[HeaderName.VALUE] = ''
+                elif any([np.issubdtype(dtype, np.floating) for dtype in dtypes]):
+                    archetype_record[HeaderName.VALUE] = 0.0
             if fiona_schema is None:
-                fiona_schema = get_fiona_schema(geom_variable.geom_type, archetype_record)
+                geom_type = geom_variable.geom_type
+                if fiona_driver == 'GeoJSON':
+                    # Single and multi-part geometries may occur together. Shapefiles make no difference.
+                    geom_type = 'Unknown'
+                fiona_schema = get_fiona_schema(geom_type, archetype_record)
         else:
             fiona_schema = opened_or_path.schema
             fiona_crs = opened_or_path.crs
             fiona_driver = opened_or_path.driver
 
-        # The Fiona GeoJSON driver does not support update.
-        if fiona_driver == 'GeoJSON':
+        # The Fiona GeoJSON driver does not support update. Features are added to the ones written before.
+        is_geojson = fiona_driver == 'GeoJSON'
+        if is_geojson:
             mode = 'w'
         else:
             mode = 'a'
 
         # Write the template file.
-        if fiona_driver != 'GeoJSON':
+        is_path = not cls.inquire_opened_state(opened_or_path)
+        if is_geojson:
+            if vm.rank == 0 and is_path and write_mode == MPIWriteMode.TEMPLATE and os.path.exists(opened_or_path):
+                os.remove(opened_or_path)
+        else:
             if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
                 with driver_scope(cls, opened_or_path=opened_or_path, mode='w', driver=fiona_driver, crs=fiona_crs,
                                   schema=fiona_schema) as _:
@@ -241,12 +262,23 @@ class DriverVector(AbstractTabularDriver):
 
         # Write data on each rank to the file.
         if write_mode != MPIWriteMode.TEMPLATE:
+            should_append = is_geojson and is_path and write_mode == MPIWriteMode.APPEND
             for rank_to_write in vm.ranks:
                 if vm.rank == rank_to_write:
+                    features = None
+                    if should_append and os.path.exists(opened_or_path):
+                        with open(opened_or_path) as source:
+                            features = json.load(source)['features']
                     with driver_scope(cls, opened_or_path=opened_or_path, mode=mode, driver=fiona_driver,
                                       crs=fiona_crs, schema=fiona_schema) as sink:
                         itr = field.iter(**iter_kwargs)
                         write_records_to_fiona(sink, itr, fiona_driver)
+                    if features:
+                        with open(opened_or_path) as source:
+                            collection = json.load(source)
+                        collection['features'] = features + collection['features']
+                        with open(opened_or_path, 'w') as sink:
+                            json.dump(collection, sink)
                 vm.barrier()
 
 
@@ -257,6 +289,12 @@ def format_record_for_fiona(driver, record):
         for k, v in list(record.items()):
             if len(k) > 10:
                 k = k[0:10]
+            # Names with the same start must remain different.
+            base, ctr = k, 0
+            while k in ret or (k != base and k in record):
+                ctr += 1
+                suffix = '_{}'.format(ctr)
+                k = base[0:10 - len(suffix)] + suffix
             ret[k] = v
     return ret
 
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index fe981b0..254487a 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -975,6 +975,10 @@ class GeometryVariable(AbstractSpatialVariable):
                         range_to_itr.append(len(dn))
                         names_to_itr.append(dn.name)
 
+                # There is nothing to average for variables not having the geometry's dimensions.
+                if len(names_to_slice_all) == 0:
+                    continue
+
                 # Reference the weights on the source geometry variable.
                 sub_geom = self[{nsa: slice(None) for nsa in names_to_slice_all}]
                 weights = sub_geom.weights
diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index 01c237b..d02f364 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -129,11 +129,6 @@ class Iterator(AbstractOcgisObject):
         else:
             has_repeaters = True
 
-        if len(self.iterators) > 1:
-            has_followers = True
-        else:
-            has_followers = False
-
         if melted is None:
             len_melted = None
         else:
@@ -177,7 +172,7 @@ class Iterator(AbstractOcgisObject):
                             for rsub in r:
                                 collected[rsub[0]] = rsub[1]
                         record = collected
-                        if is_lead and has_followers:
+                        if is_lead:
                             if melted is not None:
                                 melted_values = [None] * len_melted
                                 for midx, m in enumerate(melted):
-- 
2.43.0


From 3d85b6dec80e580c042ab39ee315a90ac64c05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 57/59] fix: connectivities with a start index, several parts,
 masked or missing columns and masks when converting and reducing; point
 topologies over distributed dimensions; several interiors and thresholds when
 splitting

---
 src/ocgis/driver/nc_ugrid.py |  2 +-
 src/ocgis/spatial/geomc.py   | 54 ++++++++++++++++++++++++++++++------
 src/ocgis/variable/geom.py   | 44 +++++++++++++++++++++++------
 3 files changed, 82 insertions(+), 18 deletions(-)

diff --git a/src/ocgis/driver/nc_ugrid.py b/src/ocgis/driver/nc_ugrid.py
index 408a980..16f8119 100644
--- a/src/ocgis/driver/nc_ugrid.py
+++ b/src/ocgis/driver/nc_ugrid.py
@@ -107,7 +107,7 @@ class DriverNetcdfUGRID(AbstractUnstructuredDriver, DriverNetcdfCF):
                     ret = line.get_dimension(DMK.ELEMENT_NODE_CONNECTIVITY)[0]
 
         if ret is None:
-            point = dimension_map.get_topology(Topology.POLYGON, create=False)
+            point = dimension_map.get_topology(Topology.POINT, create=False)
             if point is not None:
                 ret = point.get_dimension(DMK.X)[0]
 
diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index e2850e0..764e1c2 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -296,6 +296,8 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             kwargs[KeywordArgument.DIMENSIONS] = [self.element_dim]
             if self.crs is not None:
                 kwargs[KeywordArgument.CRS] = self.crs
+            if self.has_mask and KeywordArgument.MASK not in kwargs:
+                kwargs[KeywordArgument.MASK] = self.get_mask()
             ret = GeometryVariable(**kwargs)
         else:
             raise RequestableFeature(target)
@@ -327,10 +329,12 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
 
         if self.cindex is None:
             cindex = None
+            cindex_mask = None
             has_multi = False
             mbv = None
         else:
             cindex = self.cindex.get_value()
+            cindex_mask = self.cindex.get_mask()
             has_multi = self.has_multi
             mbv = self.multi_break_value
             if mbv is not None:
@@ -375,8 +379,9 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             if not is_masked:
                 if cindex is not None:
                     ec_idx = get_element_node_connectivity_by_index(cindex, idx)
-                    if start_index > 0:
-                        ec_idx -= start_index
+                    if cindex_mask is not None and cindex.ndim > 1 and not cindex_mask[idx].all():
+                        # Elements with fewer coordinates than columns.
+                        ec_idx = ec_idx[~cindex_mask[idx].flatten()]
                 else:
                     ec_idx = idx
 
@@ -385,14 +390,21 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                     mitr = iter_multipart_coordinates(ec_idx, mbv)
                 else:
                     mitr = [ec_idx]
+                if cindex is not None and start_index > 0:
+                    # Break values are not indices.
+                    mitr = [ii - start_index for ii in mitr]
 
                 for comp_coords in mitr:
                     z = None
                     if use_memory_optimizations:
-                        x = xvar[comp_coords].get_value()[0]
-                        y = yvar[comp_coords].get_value()[0]
+                        # Variables are sliced once by each coordinate.
+                        unique, inverse = np.unique(comp_coords, return_inverse=True)
+                        if np.ndim(comp_coords) == 0:
+                            inverse = 0
+                        x = xvar[unique].get_value()[inverse]
+                        y = yvar[unique].get_value()[inverse]
                         if has_z:
-                            z = zvar[comp_coords].get_value()[0]
+                            z = zvar[unique].get_value()[inverse]
                     else:
                         x = x_value[comp_coords]
                         y = y_value[comp_coords]
@@ -653,14 +665,38 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             raise ValueError('A coordinate index is required to reduce coordinates.')
 
         ocgis_lh(msg='starting reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
-        new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
+        # Only indices are changed. Break values and missing coordinates are not indices.
+        cindex = self.cindex
+        cindex_value = cindex.get_value()
+        cindex_mask = cindex.get_mask()
+        is_ragged = cindex_value.dtype == object
+        if is_ragged:
+            lengths = [len(np.atleast_1d(ii)) for ii in cindex_value.flat]
+            flat = np.concatenate([np.atleast_1d(ii) for ii in cindex_value.flat] + [np.array([], dtype=env.NP_INT)])
+            flat = flat.astype(env.NP_INT)
+        else:
+            flat = cindex_value.flatten()
+        select = np.ones(flat.shape, dtype=bool)
+        if self.has_multi:
+            select[flat == self.multi_break_value] = False
+        if cindex_mask is not None and not is_ragged:
+            select[cindex_mask.flatten()] = False
+        new_flat = flat.copy()
+        new_flat[select], uidx = reduce_reindex_coordinate_index(flat[select], start_index=self.start_index)
+        if is_ragged:
+            new_cindex = np.zeros(cindex_value.shape, dtype=object)
+            for ii, part in enumerate(np.split(new_flat, np.cumsum(lengths)[:-1])):
+                new_cindex.reshape(-1)[ii] = part
+        else:
+            new_cindex = new_flat.reshape(cindex_value.shape)
         ocgis_lh(msg='finished reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
 
-        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions)
+        new_cindex = Variable(name=cindex.name, value=new_cindex, dimensions=cindex.dimensions, mask=cindex_mask,
+                              attrs=cindex.attrs.copy(), dtype=cindex.dtype, fill_value=cindex.fill_value)
 
         ret = self.copy()
-        if self.start_index == 1:
-            uidx -= 1
+        if self.start_index > 0:
+            uidx = uidx - self.start_index
         new_parent = self.x[uidx].parent
 
         cdim = new_parent[self.x.name].dimensions[0]
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 254487a..e5b77e5 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -92,10 +92,16 @@ class GeometrySplitter(AbstractOcgisObject):
         if is_recursing:
             assert isinstance(geometry, Polygon)
             ret = []
-            for interior in self.iter_interiors():
-                split_polygon = self.create_split_polygons(interior)
-                for sp in split_polygon:
-                    ret.append(geometry.intersection(sp))
+            # Each split removes at least one interior. Pieces may hold the others.
+            for sp in self.create_split_polygons(next(iter(self.iter_interiors()))):
+                for piece in iter_exploded_geometries(geometry.intersection(sp)):
+                    if not isinstance(piece, Polygon) or piece.is_empty:
+                        # Pieces touching the split only have no area.
+                        continue
+                    elif count_interiors(piece) > 0:
+                        ret += list(self.__class__(piece).split(is_recursing=True))
+                    else:
+                        ret.append(piece)
         else:
             if isinstance(geometry, MultiPolygon):
                 itr = geometry
@@ -437,7 +443,9 @@ class GeometryVariable(AbstractSpatialVariable):
                     ndim = 2
                 fill = np.zeros([self.size, ndim], dtype=dtype)
                 for idx, geom in enumerate(geom_itr):
-                    fill[idx] = np.array(geom)
+                    # There may be no geometry if the element is masked.
+                    if isinstance(geom, BaseGeometry):
+                        fill[idx] = np.array(geom)
                 xv = fill[:, 0]
                 yv = fill[:, 1]
                 if has_z:
@@ -450,6 +458,7 @@ class GeometryVariable(AbstractSpatialVariable):
                 size = self.size
                 if max_element_coords is not None:
                     element_index = np.zeros((size, max_element_coords), dtype=env.NP_INT)
+                    element_index_mask = np.zeros(element_index.shape, dtype=bool)
                     ocgis_dtype = env.NP_INT
                 else:
                     element_index = np.zeros(size, dtype=object)
@@ -469,6 +478,14 @@ class GeometryVariable(AbstractSpatialVariable):
                     from_crs = self._request_dataset.crs
 
                 for idx, geom in enumerate(geom_itr):
+                    if not isinstance(geom, BaseGeometry):
+                        # There may be no geometry if the element is masked.
+                        if max_element_coords is None:
+                            element_index[idx] = np.array([], dtype=env.NP_INT)
+                        else:
+                            element_index_mask[idx, :] = True
+                        continue
+
                     if to_crs is not None:
                         to_transform = GeometryVariable.from_shapely(geom, crs=from_crs)
                         to_transform.update_crs(to_crs)
@@ -521,6 +538,8 @@ class GeometryVariable(AbstractSpatialVariable):
                         # Insert a break value if we are on the second or greater component geometry of a
                         # multi-geometry.
                         if subidx > 0:
+                            # Geometry types in files may not tell if there are multi-geometries.
+                            is_multi = True
                             fill_cidx = np.hstack((fill_cidx, np.array([multi_break_value], dtype=env.NP_INT)))
 
                         subgeom = get_ccw_oriented_and_valid_shapely_polygon(subgeom)
@@ -559,7 +578,11 @@ class GeometryVariable(AbstractSpatialVariable):
                     if max_element_coords is None:
                         element_index[idx] = fill_cidx
                     else:
-                        element_index[idx, :] = fill_cidx
+                        if len(fill_cidx) > max_element_coords:
+                            msg = "The element at index {} has {} indices. The maximum is {}."
+                            raise ValueError(msg.format(idx, len(fill_cidx), max_element_coords))
+                        element_index[idx, 0:len(fill_cidx)] = fill_cidx
+                        element_index_mask[idx, len(fill_cidx):] = True
 
                 if allow_splitting_excs and len(removed_indices) > 0:
                     msg = "Splitting exceptions allowed and the following geometry _indices_ were removed due to " \
@@ -575,6 +598,9 @@ class GeometryVariable(AbstractSpatialVariable):
                                                     size=max_element_coords)]
                 element_index = Variable(name=element_index_name, value=element_index, dimensions=element_index_dims,
                                          dtype=ocgis_dtype, attrs={AttributeName.START_INDEX: start_index})
+                if max_element_coords is not None and element_index_mask.any():
+                    # Some elements have fewer indices than the maximum.
+                    element_index.set_mask(element_index_mask)
 
                 # Indicate there are multi-geometries in the coordinates objects.
                 if is_multi:
@@ -1396,8 +1422,10 @@ def get_split_polygon_by_node_threshold(geom, node_threshold):
         for s in n.splitters:
             if n.geom.intersects(s):
                 the_intersection = n.geom.intersection(s)
-                for ti in get_iter(the_intersection, dtype=Polygon):
-                    n.splits.append(ti)
+                for ti in iter_exploded_geometries(the_intersection):
+                    # Splits may only touch the geometry.
+                    if isinstance(ti, Polygon) and not ti.is_empty:
+                        n.splits.append(ti)
 
                     # write_fiona(n.splits, '01-splits')
 
-- 
2.43.0


From 77d5575dc677769e1d99e628369d1cbd267129cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:40 +0000
Subject: [PATCH 58/59] fix: arguments changed after construction reach the
 selection geometries and leave everything as it was when refused; malformed
 strings, months, slices, identifiers, flags and keywords are refused; query
 strings keep dependent arguments

---
 src/ocgis/calc/library/statistics.py |   1 +
 src/ocgis/calc/library/thresholds.py |   1 +
 src/ocgis/conv/nc.py                 |   2 +-
 src/ocgis/ops/core.py                |  54 ++++--
 src/ocgis/ops/parms/base.py          |  22 ++-
 src/ocgis/ops/parms/definition.py    | 244 ++++++++++++++++-----------
 src/ocgis/ops/query.py               |  14 +-
 7 files changed, 214 insertions(+), 124 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 1104d8f..be0844e 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -372,6 +372,7 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
 class FrequencyPercentile(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFunction):
     key = 'freq_perc'
     parms_definition = {'percentile': float}
+    parms_required = ('percentile',)
     description = 'The percentile value along the time axis. See: http://docs.scipy.org/doc/numpy-dev/reference/generated/numpy.percentile.html.'
 
     standard_name = 'frequency_percentile'
diff --git a/src/ocgis/calc/library/thresholds.py b/src/ocgis/calc/library/thresholds.py
index 387d0dc..18ed61d 100644
--- a/src/ocgis/calc/library/thresholds.py
+++ b/src/ocgis/calc/library/thresholds.py
@@ -6,6 +6,7 @@ from ocgis.calc import base
 class Between(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFunction):
     description = 'Count of values falling within the limits lower and upper (inclusive).'
     parms_definition = {'lower': float, 'upper': float}
+    parms_required = ('lower', 'upper')
     dtype_default = 'int'
     key = 'between'
     standard_name = 'between'
diff --git a/src/ocgis/conv/nc.py b/src/ocgis/conv/nc.py
index 6ef19be..7de74ff 100644
--- a/src/ocgis/conv/nc.py
+++ b/src/ocgis/conv/nc.py
@@ -79,7 +79,7 @@ class NcConverter(AbstractCollectionConverter):
                 if sum(multivariate_checks) != 1:
                     msg = ('Data packages (i.e. more than one RequestDataset) may not be written to netCDF. '
                            'There are currently {dcount} RequestDatasets. Note, this is different than a '
-                           'multifile dataset.'.format(dcount=len(ops.dataset)))
+                           'multifile dataset.'.format(dcount=len_ops_dataset))
                     _raise_(msg, OutputFormat)
                 else:
                     # There is a multivariate calculation and this requires multiple request datasets.
diff --git a/src/ocgis/ops/core.py b/src/ocgis/ops/core.py
index 3168c7b..8faccf1 100644
--- a/src/ocgis/ops/core.py
+++ b/src/ocgis/ops/core.py
@@ -141,10 +141,10 @@ class OcgOperations(AbstractOcgisObject):
         self.abstraction = Abstraction(abstraction)
         self.snippet = Snippet(snippet)
         self.backend = Backend(backend)
-        self.prefix = Prefix(prefix or env.PREFIX)
+        self.prefix = Prefix(env.PREFIX if prefix is None else prefix)
         self.output_format = OutputFormat(output_format)
         self.output_format_options = OutputFormatOptions(output_format_options)
-        self.agg_selection = agg_selection  # AggregateSelection(agg_selection, output_format=self.output_format)
+        self.agg_selection = AggregateSelection(agg_selection)
         self.geom_select_sql_where = GeomSelectSqlWhere(geom_select_sql_where)
         self.geom_select_uid = GeomSelectUid(geom_select_uid or select_ugid)
         self.geom_uid = GeomUid(geom_uid)
@@ -153,7 +153,7 @@ class OcgOperations(AbstractOcgisObject):
                          output_format_options=self.output_format_options)
         self.vector_wrap = VectorWrap(vector_wrap)
         self.allow_empty = AllowEmpty(allow_empty)
-        self.dir_output = DirOutput(dir_output or env.DIR_OUTPUT)
+        self.dir_output = DirOutput(env.DIR_OUTPUT if dir_output is None else dir_output)
         self.slice = Slice(slice)
         self.file_only = FileOnly(file_only)
         self.output_crs = OutputCRS(output_crs)
@@ -203,17 +203,22 @@ class OcgOperations(AbstractOcgisObject):
         return ret
 
     def __setattr__(self, name, value):
-        if isinstance(value, AbstractParameter):
-            object.__setattr__(self, name, value)
-        else:
-            try:
-                attr = object.__getattribute__(self, name)
+        # An update which is not valid leaves the parameters as they were.
+        is_init = self.__dict__.get('_is_init', True)
+        before = None if is_init else self._get_state_()
+        try:
+            attr = self.__dict__.get(name)
+            if isinstance(attr, AbstractParameter) and not isinstance(value, AbstractParameter):
                 attr.value = value
-            except AttributeError:
+            else:
                 object.__setattr__(self, name, value)
-        if self._is_init is False:
-            self._update_dependents_()
-            self._validate_()
+            if self._is_init is False:
+                self._update_dependents_()
+                self._validate_()
+        except Exception:
+            if before is not None:
+                self._set_state_(before)
+            raise
 
     def get_base_request_size(self):
         """
@@ -315,12 +320,33 @@ class OcgOperations(AbstractOcgisObject):
     def _get_object_(self, name):
         return object.__getattribute__(self, name)
 
+    def _get_state_(self):
+        parameters = [p for p in self.__dict__.values() if isinstance(p, AbstractParameter)]
+        return self.__dict__.copy(), [(p, p.__dict__.copy()) for p in parameters]
+
+    def _set_state_(self, state):
+        attrs, parameters = state
+        for target, original in [(self.__dict__, attrs)] + [(p.__dict__, original) for p, original in parameters]:
+            target.clear()
+            target.update(original)
+
     def _update_dependents_(self):
         # the select_ugid parameter must always connect to the geometry selection
         geom = self._get_object_(Geom.name)
         svalue = self._get_object_(GeomSelectUid.name)._value
         geom.select_ugid = svalue
 
+        # Selection geometries are created anew when parameters used for their creation change.
+        dependents = {GeomSelectUid.name: svalue,
+                      GeomUid.name: self.geom_uid,
+                      GeomSelectSqlWhere.name: self.geom_select_sql_where,
+                      KeywordArgument.UNION: self.agg_selection,
+                      OutputFormatOptions.name: self.output_format_options}
+        previous = self.__dict__.get('_geom_dependents')
+        if previous is not None and previous != dependents:
+            geom.update({k: v for k, v in dependents.items() if previous[k] != v})
+        object.__setattr__(self, '_geom_dependents', dependents)
+
     def _validate_(self):
         ocgis_lh(logger='operations', msg='validating operations')
 
@@ -394,8 +420,8 @@ class OcgOperations(AbstractOcgisObject):
                     _raise_('Snippets are not implemented for time regions.', obj=Snippet)
 
         # no slicing with a geometry - can easily lead to extent errors
-        if self.slice is not None:
-            assert self.geom is None
+        if self.slice is not None and self.geom is not None:
+            _raise_('Slices may not be used with a selection geometry.', obj=Slice)
 
         # file only operations only valid for netCDF and calculations.
         if self.file_only:
diff --git a/src/ocgis/ops/parms/base.py b/src/ocgis/ops/parms/base.py
index ebe9099..5ed21ab 100644
--- a/src/ocgis/ops/parms/base.py
+++ b/src/ocgis/ops/parms/base.py
@@ -67,12 +67,18 @@ class AbstractParameter(AbstractOcgisObject):
                 msg = 'Input value type "{1}" is not in accepted types: {0}'
                 raise DefinitionValidationError(self, msg.format(input_types, type(value)))
 
-        if isinstance(value, six.string_types):
-            value = self.parse_string(value)
-        else:
-            if self._perform_deepcopy:
-                value = deepcopy(value)
-        ret = self.parse(value)
+        try:
+            if isinstance(value, six.string_types):
+                value = self.parse_string(value)
+            else:
+                if self._perform_deepcopy:
+                    value = deepcopy(value)
+            ret = self.parse(value)
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
+            # Parameters without type checks may open data sets. Leave their exceptions alone.
+            if not self._check_input_type:
+                raise
+            raise DefinitionValidationError(self, 'The value may not be parsed: {}'.format(e))
 
         if self._check_output_type:
             try:
@@ -199,8 +205,10 @@ class BooleanParameter(AbstractParameter):
             ret = False
         elif value == 1:
             ret = True
-        else:
+        elif value is None:
             ret = value
+        else:
+            raise DefinitionValidationError(self, 'Integers other than 0 and 1 are not allowed: {}'.format(value))
         return ret
 
     def _parse_string_(self, value):
diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index ad0ad6b..634cf08 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -160,6 +160,10 @@ class Calc(base.IterableParameter, base.AbstractParameter):
         return ret
 
     def _parse_(self, value):
+        # Elements of a sequence may be strings.
+        if isinstance(value, six.string_types) and '=' not in value:
+            value = self._parse_string_(value)
+
         # test if the value is an eval function and set internal flag
         if '=' in value:
             self._is_eval_function = True
@@ -253,18 +257,16 @@ class Calc(base.IterableParameter, base.AbstractParameter):
     def _parse_string_(self, value):
         try:
             key, uname = value.split('~', 1)
-            try:
+            kwds = OrderedDict()
+            if '!' in uname:
                 uname, kwds_raw = uname.split('!', 1)
                 kwds_raw = kwds_raw.split('!')
-                kwds = OrderedDict()
                 for kwd in kwds_raw:
                     kwd_name, kwd_value = kwd.split('~')
                     try:
                         kwds.update({kwd_name: float(kwd_value)})
                     except ValueError:
                         kwds.update({kwd_name: str(kwd_value)})
-            except ValueError:
-                kwds = OrderedDict()
             ret = {'func': key.lower(), 'name': uname, 'kwds': kwds}
         except ValueError:
             # likely a string to use for an eval function
@@ -325,18 +327,23 @@ class CalcGrouping(base.IterableParameter, base.AbstractParameter):
     def parse(self, value):
         try:
             # Not interested in looking for unique letters in the "_flags"
-            parse_value = list(deepcopy(value))
+            parse_value = [list(e) if isinstance(e, tuple) else e for e in deepcopy(value)]
+            names = [e for e in parse_value if isinstance(e, six.string_types)]
+            if len(names) != len(set(names)):
+                raise DefinitionValidationError(self, 'Element sequences must be unique.')
+            # Years without seasons are always unique.
+            if sorted(parse_value, key=str) == sorted(self._flags):
+                parse_value.remove('unique')
             # If we do remove a flag, be sure and append it back
-            add_back = None
+            add_back = []
             for flag in self._flags:
                 if flag in parse_value:
                     parse_value.remove(flag)
-                    add_back = flag
+                    add_back.append(flag)
             # Call superclass method to parse the value for iteration
             ret = base.IterableParameter.parse(self, parse_value, check_basestrings=False)
-            # Add the value back if it has been set
-            if add_back is not None:
-                ret.append(add_back)
+            # Add the values back if they have been set
+            ret.extend(add_back)
         # Value is likely none.
         except TypeError:
             if value is None:
@@ -357,29 +364,20 @@ class CalcGrouping(base.IterableParameter, base.AbstractParameter):
         return (msg)
 
     def _validate_(self, value):
+        names = [element for element in value if isinstance(element, six.string_types)]
+        seasons = [element for element in value if not isinstance(element, six.string_types)]
+        if len(seasons) > 0:
+            # One of the keywords year and unique is okay for seasonal aggregations.
+            if len(names) > 1 or not set(names).issubset(self._flags):
+                raise DefinitionValidationError(self, 'only one flag is allowed: {}'.format(self._flags))
+            months = list(range(1, 13))
+            for season in seasons:
+                for month in season:
+                    if month not in months:
+                        raise DefinitionValidationError(self, 'month not in months: {}'.format(months))
         # The 'all' parameter will be reduced to a string eventually
-        if len(value) == 1 and value[0] == 'all':
-            pass
-        else:
-            try:
-                for val in value:
-                    if val not in self._standard_groups:
-                        raise DefinitionValidationError(self,
-                                                        'not in standard groups: {}'.format(self._standard_groups))
-            # The grouping may not be a date part but a seasonal aggregation
-            except DefinitionValidationError:
-                months = list(range(1, 13))
-                for element in value:
-                    # The keyword year and unique are okay for seasonal aggregations
-                    if element in self._flags:
-                        continue
-                    elif isinstance(element, six.string_types):
-                        if element not in self._flags:
-                            raise DefinitionValidationError(self, 'element not in flags: {}'.format(self._flags))
-                    else:
-                        for month in element:
-                            if month not in months:
-                                raise DefinitionValidationError(self, 'month not in months: {}'.format(months))
+        elif names != ['all'] and not set(names).issubset(self._standard_groups):
+            raise DefinitionValidationError(self, 'not in standard groups: {}'.format(self._standard_groups))
 
 
 class CalcRaw(base.BooleanParameter):
@@ -529,6 +527,12 @@ class Dataset(base.AbstractParameter):
         for k in keys:
             _update_from_query_dict_(store, k)
 
+        if 'uri' not in store:
+            raise DefinitionValidationError(cls, 'A "uri" is required.')
+        lengths = set([len(v) for v in store.values()])
+        if len(lengths) > 1:
+            raise DefinitionValidationError(cls, 'The keys {} must have the same number of values.'.format(keys))
+
         rds = []
         for idx in range(len(store['uri'])):
             kwds = {}
@@ -623,7 +627,7 @@ class Geom(base.AbstractParameter):
     name = 'geom'
     nullable = True
     default = None
-    input_types = [list, tuple, GeomCabinetIterator, BaseGeometry, Field, GeometryVariable]
+    input_types = [list, tuple, dict, GeomCabinetIterator, BaseGeometry, Field, GeometryVariable]
     return_type = [GeomCabinetIterator, tuple]
     _shp_key = None
     _bounds = None
@@ -646,13 +650,7 @@ class Geom(base.AbstractParameter):
         if isinstance(self.output_format_options, OutputFormatOptions):
             self.output_format_options = self.output_format_options.value
 
-        if self.output_format_options is not None:
-            self.data_model = self.output_format_options.get(KeywordArgument.DATA_MODEL)
-        else:
-            if self.dataset is not None:
-                self.data_model = list(self.dataset.data_model)[0]
-            else:
-                self.data_model = None
+        self._set_data_model_()
 
         args = [self] + list(args)
         base.AbstractParameter.__init__(*args, **kwargs)
@@ -671,15 +669,51 @@ class Geom(base.AbstractParameter):
 
     def _get_value_(self):
         # Without a selection here, an iterator keeps its own.
-        if isinstance(self._value, GeomCabinetIterator) and self.select_ugid is not None:
-            self._value.select_uid = self.select_ugid
+        if isinstance(self._value, GeomCabinetIterator):
+            self._value.select_uid = self._select_uid if self.select_ugid is None else self.select_ugid
         return base.AbstractParameter._get_value_(self)
 
-    value = property(_get_value_, base.AbstractParameter._set_value_)
+    def _set_value_(self, value):
+        previous = self.__dict__.copy()
+        self._shp_key = None
+        self._bounds = None
+        try:
+            self._input = deepcopy(value) if isinstance(value, (dict, list, tuple)) else value
+            base.AbstractParameter._set_value_(self, value)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(previous)
+            raise
+
+    value = property(_get_value_, _set_value_)
+
+    def update(self, settings):
+        """
+        Change settings of the selection geometries. Geometries are created again from their definition unless they were
+        provided as an object with settings of its own.
+
+        :param dict settings: New values by keyword argument.
+        """
+        for k, v in settings.items():
+            setattr(self, 'select_ugid' if k == GeomSelectUid.name else k, v)
+        self._set_data_model_()
+        if isinstance(self._input, (dict, list, tuple, BaseGeometry) + six.string_types):
+            self.value = self._input
+
+    def _set_data_model_(self):
+        if self.output_format_options is not None:
+            self.data_model = self.output_format_options.get(KeywordArgument.DATA_MODEL)
+        else:
+            if self.dataset is not None:
+                self.data_model = list(self.dataset.data_model)[0]
+            else:
+                self.data_model = None
 
     def parse(self, value):
+        if isinstance(value, dict):
+            value = [value]
         if type(value) in [list, tuple]:
-            if all([isinstance(element, dict) for element in value]):
+            if len(value) > 0 and all([isinstance(element, dict) for element in value]):
                 for ii, element in enumerate(value, start=1):
                     if 'geom' not in element:
                         ocgis_lh(exc=DefinitionValidationError(self, 'Geometry dictionaries must have a "geom" key.'))
@@ -691,18 +725,13 @@ class Geom(base.AbstractParameter):
                 ret = Field.from_records(value, crs=crs, uid=self.geom_uid, union=self.union,
                                          data_model=self.data_model)
             else:
-                if len(value) == 2:
-                    geom = Point(value[0], value[1])
-                elif len(value) == 4:
-                    minx, miny, maxx, maxy = value
-                    geom = Polygon(((minx, miny), (minx, maxy), (maxx, maxy), (maxx, miny)))
-                if not geom.is_valid:
-                    raise DefinitionValidationError(self, 'Parsed geometry is not valid.')
+                geom = self._get_geometry_(value)
                 ret = [{'geom': geom, 'properties': {self._ugid_key: 1}}]
                 ret = Field.from_records(ret, uid=self.geom_uid, union=self.union, data_model=self.data_model)
-                self._bounds = geom.bounds
+                self._bounds = tuple([float(e) for e in value])
         elif isinstance(value, GeomCabinetIterator):
             self._shp_key = value.key or value.path
+            self._select_uid = value.select_uid
             # Always yield fields.
             value.as_field = True
             ret = value
@@ -733,22 +762,13 @@ class Geom(base.AbstractParameter):
                 exc = DefinitionValidationError(self, 'The provided path is a directory.')
                 ocgis_lh(exc=exc, logger='definition')
 
+        value = value.strip()
+        if value.lower() == 'none':
+            return None
+
         elements = value.split('|')
         try:
-            elements = [float(e) for e in elements]
-            # switch geometry creation based on length. length of 2 is a point otherwise a bounding box
-            if len(elements) == 2:
-                geom = Point(elements[0], elements[1])
-            else:
-                minx, miny, maxx, maxy = elements
-                geom = Polygon(((minx, miny),
-                                (minx, maxy),
-                                (maxx, maxy),
-                                (maxx, miny)))
-            if not geom.is_valid:
-                raise DefinitionValidationError(self, 'Parsed geometry is not valid.')
-            ret = [{'geom': geom, 'properties': {'ugid': 1}}]
-            self._bounds = elements
+            ret = [float(e) for e in elements]
         # try the value as a key or path
         except ValueError:
             # if the path exists, then assume it is a path to a shapefile, otherwise assume it is a key
@@ -790,6 +810,19 @@ class Geom(base.AbstractParameter):
             ret = '{0} custom user geometries provided.'.format(len(self.value))
         return ret
 
+    def _get_geometry_(self, elements):
+        # switch geometry creation based on length. length of 2 is a point otherwise a bounding box
+        if len(elements) == 2:
+            geom = Point(*[float(e) for e in elements])
+        elif len(elements) == 4:
+            minx, miny, maxx, maxy = [float(e) for e in elements]
+            geom = Polygon(((minx, miny), (minx, maxy), (maxx, maxy), (maxx, miny)))
+        else:
+            raise DefinitionValidationError(self, 'Points have two elements and bounding boxes have four elements.')
+        if not geom.is_valid:
+            raise DefinitionValidationError(self, 'Parsed geometry is not valid.')
+        return geom
+
     @staticmethod
     def _iter_singular_fields_(field):
         """
@@ -828,6 +861,12 @@ class GeomSelectUid(base.IterableParameter, base.AbstractParameter):
     element_type = int
     unique = True
 
+    def _parse_(self, value):
+        # Do not truncate real numbers.
+        if not isinstance(value, six.string_types) and value is not None and int(value) != value:
+            raise DefinitionValidationError(self, 'Unique identifiers must be integers: {}'.format(value))
+        return value
+
     def _get_meta_(self):
         if self.value is None:
             ret = 'No geometry selection by unique identifier.'
@@ -883,6 +922,13 @@ class LevelRange(base.IterableParameter, base.AbstractParameter):
             msg = 'The following level subset was applied to all request datasets: {0}'.format(self.value)
         return msg
 
+    def _parse_string_(self, value):
+        try:
+            ret = int(value)
+        except ValueError:
+            ret = float(value)
+        return ret
+
 
 class Melted(base.BooleanParameter):
     """
@@ -949,7 +995,10 @@ class OutputCRS(base.AbstractParameter):
         return ret
 
     def _parse_string_(self, value):
-        return CoordinateReferenceSystem(epsg=int(value))
+        try:
+            return CoordinateReferenceSystem(epsg=int(value))
+        except (RuntimeError, ValueError) as e:
+            raise DefinitionValidationError(self, 'Not an EPSG code "{}": {}'.format(value, e))
 
 
 class OutputFormat(base.StringOptionParameter):
@@ -957,21 +1006,14 @@ class OutputFormat(base.StringOptionParameter):
     default = constants.OutputFormatName.OCGIS
     valid = list(get_converter_map().keys())
 
-    def __init__(self, init_value=None):
-        try:
-            if isinstance(init_value, six.string_types):
-                init_value = init_value.lower()
-            # Maintain the old CSV-Shapefile output format key.
-            if init_value == 'csv+':
-                init_value = constants.OutputFormatName.CSV_SHAPEFILE
-            # Maintain the old NumPy key.
-            if init_value == 'numpy':
-                init_value = constants.OutputFormatName.OCGIS
-        except AttributeError:
-            # Allow the object to initialized by itself.
-            if not isinstance(init_value, self.__class__):
-                raise
-        super(OutputFormat, self).__init__(init_value=init_value)
+    def _parse_string_(self, value):
+        # Maintain the old CSV-Shapefile output format key.
+        if value == 'csv+':
+            value = constants.OutputFormatName.CSV_SHAPEFILE
+        # Maintain the old NumPy key.
+        if value == 'numpy':
+            value = constants.OutputFormatName.OCGIS
+        return value
 
     @classmethod
     def iter_possible(cls):
@@ -1084,6 +1126,8 @@ class RegridOptions(base.AbstractParameter):
     _possible_value_mask_types = [type(None), np.ndarray]
 
     def _parse_(self, value):
+        if value is None:
+            value = deepcopy(self.default)
         for key in list(value.keys()):
             if key not in list(self.default.keys()):
                 msg = 'The option "{0}" is not allowed.'.format(key)
@@ -1129,6 +1173,9 @@ class SearchRadiusMultiplier(base.AbstractParameter):
             msg = 'No buffering applied to point selection geometries.'
         return msg
 
+    def _parse_string_(self, value):
+        return float(value)
+
     def _validate_(self, value):
         if value <= 0:
             raise DefinitionValidationError(self, msg='must be > 0')
@@ -1150,22 +1197,19 @@ class Slice(base.IterableParameter, base.AbstractParameter):
     element_type = [type(None), int, tuple, list, slice]
     unique = False
 
-    def __init__(self, init_value=None):
-        # If this is a dictionary slice, leave as is and let slice infrastructure handling formatting.
-        if isinstance(init_value, dict):
-            is_dict = True
-            use_init_value = None
+    def parse(self, value):
+        # If this is a dictionary slice, leave as is and let slice infrastructure handling formatting. Do not use the
+        # iterable formatting for the list/tuple.
+        if isinstance(value, dict):
+            ret = value
         else:
-            is_dict = False
-            use_init_value = init_value
-
-        super(Slice, self).__init__(use_init_value)
-
-        # Set the dictionary slice directly. Do not use the iterable formatting for the list/tuple.
-        if is_dict:
-            self._value = deepcopy(init_value)
+            ret = super(Slice, self).parse(value)
+        return ret
 
     def parse_all(self, values):
+        if len(values) != 5:
+            # Let the validater catch this.
+            return values
         try:
             new_values = {}
             new_values[DimensionMapKey.REALIZATION] = values[0]
@@ -1191,6 +1235,8 @@ class Slice(base.IterableParameter, base.AbstractParameter):
             else:
                 ret = slice(value, value + 1)
         elif type(value) in [list, tuple]:
+            if not all([e is None or isinstance(e, (int, np.integer)) for e in value]):
+                raise DefinitionValidationError(self, 'Slice elements must be integers: {}'.format(value))
             ret = slice(*value)
         else:
             raise DefinitionValidationError(self, '"{0}" cannot be converted to a slice object'.format(value))
@@ -1298,7 +1344,8 @@ class TimeRange(base.IterableParameter, base.AbstractParameter):
                 continue
             else:
                 break
-        assert ret is not None
+        if ret is None:
+            raise DefinitionValidationError(self, 'Formats are {}: "{}"'.format(formats, value))
         return ret
 
 
@@ -1326,6 +1373,11 @@ class TimeRegion(base.AbstractParameter):
             for key in list(value.keys()):
                 if key not in ['month', 'year']:
                     raise DefinitionValidationError(self, 'Only "month" and "year" keys allowed.')
+            for key, elements in value.items():
+                for element in elements if elements is not None else []:
+                    is_month = key == 'month'
+                    if not isinstance(element, (int, np.integer)) or (is_month and not 1 <= element <= 12):
+                        raise DefinitionValidationError(self, 'Not a {}: {}'.format(key, element))
             if all([i is None for i in list(value.values())]):
                 value = None
         return value
diff --git a/src/ocgis/ops/query.py b/src/ocgis/ops/query.py
index d921b96..bc7a522 100644
--- a/src/ocgis/ops/query.py
+++ b/src/ocgis/ops/query.py
@@ -1,4 +1,5 @@
 from ocgis import OcgOperations
+from ocgis.exc import DefinitionValidationError
 from ocgis.ops.parms.base import AbstractParameter
 from ocgis.ops.parms.definition import Dataset
 from ocgis.util.helpers import itersubclasses
@@ -33,11 +34,12 @@ class QueryInterface(object):
         kwds[Dataset.name] = Dataset.from_query(self)
 
         for k, v in self.query_dict.items():
-            try:
-                kwds[k] = pmap[k].from_query(self)
-            except KeyError:
-                # Some parameters require arguments different from the parameter name.
-                if k not in self._expected_missing_keys:
-                    raise
+            # Some parameters require arguments different from the parameter name.
+            if k in self._expected_missing_keys:
+                continue
+            if k not in pmap or k == Dataset.name:
+                raise DefinitionValidationError('query', 'The key "{}" is not a parameter name.'.format(k))
+            # Parameters may depend on one another. The operations object parses the values.
+            kwds[k] = v[0]
         ops = OcgOperations(**kwds)
         return ops
-- 
2.43.0


From f5a7993a08f5128bf7b708c7f9cd60e8489d4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 59/59] fix: geometries keep their values where other variables
 share them when the coordinate system changes

---
 src/ocgis/variable/crs.py  | 4 +++-
 src/ocgis/variable/geom.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 61c4fad..ebbc4cf 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -748,7 +748,9 @@ class AbstractSphericalCoordinateReferenceSystem(AbstractOcgisObject):
         z[:] = z_out
 
         new_geom = Polygon(new_coords)
-        geom.get_value()[0] = new_geom
+        value = geom.get_value().copy()
+        value[0] = new_geom
+        geom.set_value(value)
 
     def transform_grid(self, other_crs, grid, inverse=False):
         """
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index e5b77e5..53e20e7 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1175,7 +1175,9 @@ class GeometryVariable(AbstractSpatialVariable):
             from_crs.transform_geometry(to_crs, self, inverse=inverse)
         elif from_crs != to_crs:
             # Be sure and project masked geometries to maintain underlying geometries.
-            r_value = self.get_value().reshape(-1)
+            # Values may be shared with other variables.
+            value = self.get_value().copy()
+            r_value = value.reshape(-1)
             r_loads = wkb.loads
             r_create = ogr.CreateGeometryFromWkb
             to_sr = to_crs.sr
@@ -1201,6 +1203,7 @@ class GeometryVariable(AbstractSpatialVariable):
                 ogr_geom.AssignSpatialReference(from_sr)
                 ogr_geom.TransformTo(to_sr)
                 r_value[idx] = r_loads(ogr_geom.ExportToWkb())
+            self.set_value(value)
         # Even if coordinate systems are measured equivalent, for consistency the new crs is the destination CRS.
         self.crs = to_crs
 
-- 
2.43.0

