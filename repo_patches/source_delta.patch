From 559f964701b329d75d0403d03c4cc2419dc70332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 01/31] fix: keep all dimensions when synchronizing vector
 interfaces

The edge data were rotated as if their only dimension was x (or y), so that for
arrays with further dimensions the wrong axis was reversed and the dimension order
of the receiving edge was not respected.
---
 fv3gfs/util/communicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index a01e5c1..eacc37d 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -571,7 +571,7 @@ class CubedSphereCommunicator(Communicator):
         west_boundary = self.boundaries[constants.WEST]
         south_data = x_quantity.view.southwest.sel(
             **{
-                constants.Y_INTERFACE_DIM: 0,
+                constants.Y_INTERFACE_DIM: slice(0, 1),
                 constants.X_DIM: slice(
                     0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                 ),
@@ -579,7 +579,7 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [constants.X_DIM],
+            x_quantity.dims,
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
@@ -587,7 +587,7 @@ class CubedSphereCommunicator(Communicator):
             south_data = -south_data
         west_data = y_quantity.view.southwest.sel(
             **{
-                constants.X_INTERFACE_DIM: 0,
+                constants.X_INTERFACE_DIM: slice(0, 1),
                 constants.Y_DIM: slice(
                     0, y_quantity.extent[y_quantity.dims.index(constants.Y_DIM)]
                 ),
@@ -595,7 +595,7 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [constants.Y_DIM],
+            y_quantity.dims,
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
@@ -614,7 +614,7 @@ class CubedSphereCommunicator(Communicator):
         east_rank = self.boundaries[constants.EAST].to_rank
         north_data = x_quantity.view.northwest.sel(
             **{
-                constants.Y_INTERFACE_DIM: -1,
+                constants.Y_INTERFACE_DIM: slice(-1, 0),
                 constants.X_DIM: slice(
                     0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                 ),
@@ -622,7 +622,7 @@ class CubedSphereCommunicator(Communicator):
         )
         east_data = y_quantity.view.southeast.sel(
             **{
-                constants.X_INTERFACE_DIM: -1,
+                constants.X_INTERFACE_DIM: slice(-1, 0),
                 constants.Y_DIM: slice(
                     0, y_quantity.extent[y_quantity.dims.index(constants.Y_DIM)]
                 ),
-- 
2.43.0


From e35b55b63c06290f42347d9db720e835a3504d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 02/31] fix: stop the clock when the timed block raises

Otherwise the clock keeps running and the next attempt to time the same operation
fails; a communicator could not be used any more after a rejected halo update.
---
 fv3gfs/util/_timing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_timing.py b/fv3gfs/util/_timing.py
index d93bb8a..85d3e72 100644
--- a/fv3gfs/util/_timing.py
+++ b/fv3gfs/util/_timing.py
@@ -56,8 +56,10 @@ class Timer:
                 {'sleep': 1.0032463260000029}
         """
         self.start(name)
-        yield
-        self.stop(name)
+        try:
+            yield
+        finally:
+            self.stop(name)
 
     @property
     def times(self) -> Mapping[str, float]:
-- 
2.43.0


From f4b3f08a74f424ba4e7360caa23ce01151ff9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 03/31] fix: send no halo data when the halo update is rejected

A halo update wider than the allocated halo raised only after its data had been
sent; these messages were never received and could be mistaken for those of a later
exchange using the same tag.
---
 fv3gfs/util/communicator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index eacc37d..6578ff3 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -398,8 +398,10 @@ class CubedSphereCommunicator(Communicator):
         if n_points == 0:
             raise ValueError("cannot perform a halo update on zero halo points")
         tag = self._get_halo_tag()
-        send_requests = self._Isend_halos(quantity, n_points, tag=tag)
+        # receives are prepared first because they raise if the halo is too small,
+        # which must happen before any data is sent
         recv_requests = self._Irecv_halos(quantity, n_points, tag=tag)
+        send_requests = self._Isend_halos(quantity, n_points, tag=tag)
         return HaloUpdateRequest(send_requests, recv_requests)
 
     def _Isend_halos(self, quantity: Quantity, n_points: int, tag: int = 0):
@@ -527,11 +529,13 @@ class CubedSphereCommunicator(Communicator):
         if n_points == 0:
             raise ValueError("cannot perform a halo update on zero halo points")
         tag1, tag2 = self._get_halo_tag(), self._get_halo_tag()
+        # receives are prepared first because they raise if the halo is too small,
+        # which must happen before any data is sent
+        recv_requests = self._Irecv_halos(x_quantity, n_points, tag=tag1)
+        recv_requests.extend(self._Irecv_halos(y_quantity, n_points, tag=tag2))
         send_requests = self._Isend_vector_halos(
             x_quantity, y_quantity, n_points, tags=(tag1, tag2)
         )
-        recv_requests = self._Irecv_halos(x_quantity, n_points, tag=tag1)
-        recv_requests.extend(self._Irecv_halos(y_quantity, n_points, tag=tag2))
         return HaloUpdateRequest(send_requests, recv_requests)
 
     def _Isend_vector_halos(
-- 
2.43.0


From 5bfbac21149cf328a6469dc45b0e992f2fbab4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 04/31] fix: compute rank extents with exact arithmetic

---
 fv3gfs/util/partitioner.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/fv3gfs/util/partitioner.py b/fv3gfs/util/partitioner.py
index e27a34d..219517f 100644
--- a/fv3gfs/util/partitioner.py
+++ b/fv3gfs/util/partitioner.py
@@ -1,6 +1,7 @@
 from typing import Tuple, Callable, Iterable, Optional, Union, cast, Sequence
 import copy
 import abc
+import fractions
 import functools
 import dataclasses
 from . import constants, utils
@@ -734,14 +735,18 @@ def rank_extent_from_tile_metadata(
     Returns:
         rank_extent: the extent of one rank
     """
-    layout_factors = 1 / np.asarray(
-        utils.list_by_dims(dims, layout, non_horizontal_value=1)
-    )
+    # exact arithmetic, as for example int(49 * (1 / 49)) is 0
+    layout_factors = [
+        fractions.Fraction(1, int(n_ranks))
+        for n_ranks in utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    ]
     return extent_from_metadata(dims, tile_extent, layout_factors)
 
 
 def extent_from_metadata(
-    dims: Iterable[str], extent: Iterable[int], layout_factors: np.ndarray
+    dims: Iterable[str],
+    extent: Iterable[int],
+    layout_factors: Iterable[Union[int, fractions.Fraction]],
 ) -> Tuple[int, ...]:
     return_extents = []
     for dim, rank_extent, layout_factor in zip(dims, extent, layout_factors):
@@ -750,7 +755,7 @@ def extent_from_metadata(
         else:
             add_extent = 0
         tile_extent = (rank_extent + add_extent) * layout_factor - add_extent
-        return_extents.append(int(tile_extent))  # layout_factor is float, need to cast
+        return_extents.append(int(tile_extent))  # may be a Fraction, need to cast
     return tuple(return_extents)
 
 
-- 
2.43.0


From 9311bff83bf82d07750c6c4e861b9e88a8161faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 05/31] fix: rotate both components when a boundary rotates
 data in place

---
 fv3gfs/util/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/boundary.py b/fv3gfs/util/boundary.py
index faf1785..eaa6e26 100644
--- a/fv3gfs/util/boundary.py
+++ b/fv3gfs/util/boundary.py
@@ -20,12 +20,12 @@ class Boundary:
         if self.n_clockwise_rotations % 4 == 0:
             pass
         elif self.n_clockwise_rotations % 4 == 1:
-            y_data[:], x_data[:] = -x_data[:], y_data[:]
+            y_data[:], x_data[:] = -x_data[:], y_data.copy()
         elif self.n_clockwise_rotations % 4 == 2:
             y_data[:] = -y_data[:]
             x_data[:] = -x_data[:]
         elif self.n_clockwise_rotations % 4 == 3:
-            y_data, x_data = x_data[:], -y_data[:]
+            y_data[:], x_data[:] = x_data.copy(), -y_data[:]
 
     def send_view(self, quantity: Quantity, n_points: int):
         """Return a sliced view of points which should be sent at this boundary.
-- 
2.43.0


From cbb2a37ed1f087f47fcdced51cfaeb9f55d39469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 06/31] fix: raise IndexError for too many indices on a
 quantity view

---
 fv3gfs/util/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index da0caec..2897598 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -181,7 +181,7 @@ class BoundedArrayView:
         if len(index) > len(self._dims):
             raise IndexError(
                 f"{len(index)} is too many indices for a "
-                f"{len(self.dims)}-dimensional quantity"
+                f"{len(self._dims)}-dimensional quantity"
             )
         index = fill_index(index, len(self._data.shape))
         shifted_index = []
-- 
2.43.0


From a9d86b589f714251f9a54f4960dcd55ebe8dcb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 07/31] fix: allow assigning through the views of a
 zero-dimensional quantity

---
 fv3gfs/util/quantity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 2897598..7ea13e3 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -74,7 +74,10 @@ class BoundaryArrayView:
             return self._data[self._get_array_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_array_index(index)] = value
+        if len(self._origin) == 0:
+            self[index][()] = value
+        else:
+            self._data[self._get_array_index(index)] = value
 
     def _get_array_index(self, index):
         if isinstance(index, list):
@@ -173,7 +176,10 @@ class BoundedArrayView:
             return self._data[self._get_compute_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_compute_index(index)] = value
+        if len(self._origin) == 0:
+            self[index][()] = value
+        else:
+            self._data[self._get_compute_index(index)] = value
 
     def _get_compute_index(self, index):
         if not isinstance(index, (tuple, list)):
-- 
2.43.0


From 007dd705a6a09bddb242a2aca4430209a475eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 08/31] fix: keep a zero-dimensional quantity writeable after
 accessing its values

---
 fv3gfs/util/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 7ea13e3..2e41ae8 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -448,7 +448,7 @@ class Quantity:
             "values exists only for backwards-compatibility with DataArray and will be removed, use .view[:] instead",
             DeprecationWarning,
         )
-        return_array = np.asarray(self.view[:])
+        return_array = np.asarray(self.view[:]).view()
         return_array.flags.writeable = False
         return return_array
 
-- 
2.43.0


From 9f9dcf0a620dbb6f6ff6bc2ebc243f40ddbbc5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 09/31] fix: accept lists and scalars as quantity data

---
 fv3gfs/util/quantity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 2e41ae8..8d2f589 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -278,6 +278,9 @@ class Quantity:
                 storage attribute is disabled and will raise an exception. Will raise
                 a TypeError if this is given with a gt4py storage type as data
         """
+        if isinstance(data, (int, float, list)):
+            data = np.asarray(data)
+
         if origin is None:
             origin = (0,) * len(dims)  # default origin at origin of array
         else:
@@ -288,9 +291,7 @@ class Quantity:
         else:
             extent = tuple(extent)
 
-        if isinstance(data, (int, float, list)):
-            data = np.asarray(data)
-        elif gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
+        if gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
             if gt4py_backend is not None:
                 raise TypeError(
                     "cannot select gt4py backend with keyword argument "
-- 
2.43.0


From fc9c3d434072de9bb3a871da8ecfc18d01e86807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 10/31] fix: select the compute domain when a view is sliced
 with a negative step

---
 fv3gfs/util/_boundary_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fv3gfs/util/_boundary_utils.py b/fv3gfs/util/_boundary_utils.py
index 1eab376..c32ce5d 100644
--- a/fv3gfs/util/_boundary_utils.py
+++ b/fv3gfs/util/_boundary_utils.py
@@ -14,6 +14,9 @@ def shift_boundary_slice_tuple(dims, origin, extent, boundary_type, slice_tuple)
 
 
 def bound_default_slice(slice_in, start=None, stop=None):
+    if slice_in.step is not None and slice_in.step < 0:
+        # going backwards, the default is from the last point to the first one
+        start, stop = stop - 1, start - 1 if start > 0 else None
     if slice_in.start is not None:
         start = slice_in.start
     if slice_in.stop is not None:
-- 
2.43.0


From 79f73e78012415148019efe621c057f13ec63aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 11/31] fix: gather state variables in the same order on every
 rank

---
 fv3gfs/util/communicator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 6578ff3..1dc1e2a 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -219,7 +219,8 @@ class Communicator:
         """
         if self.rank == constants.ROOT_RANK and recv_state is None:
             recv_state = {}
-        for name, quantity in send_state.items():
+        # iterate in an order which is the same on every rank
+        for name, quantity in sorted(send_state.items(), key=lambda item: item[0]):
             if name == "time":
                 if self.rank == constants.ROOT_RANK:
                     recv_state["time"] = send_state["time"]
-- 
2.43.0


From 067586cceb351ced94378a28f325dc2105a65330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 12/31] fix: keep the time of the receiving state if the
 scattered state has none

---
 fv3gfs/util/communicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 1dc1e2a..a251792 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -260,7 +260,7 @@ class Communicator:
                     self.scatter(send_quantity=array, recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter(send_quantity=array)
-            recv_state["time"] = self.comm.bcast(
+            return self.comm.bcast(
                 send_state.get("time", None), root=constants.ROOT_RANK
             )
 
@@ -271,16 +271,16 @@ class Communicator:
                     self.scatter(recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter()
-            recv_state["time"] = self.comm.bcast(None, root=constants.ROOT_RANK)
+            return self.comm.bcast(None, root=constants.ROOT_RANK)
 
         if recv_state is None:
             recv_state = {}
         if self.rank == constants.ROOT_RANK:
-            scatter_root()
+            time = scatter_root()
         else:
-            scatter_client()
-        if recv_state["time"] is None:
-            recv_state.pop("time")
+            time = scatter_client()
+        if time is not None:
+            recv_state["time"] = time
         return recv_state
 
 
-- 
2.43.0


From 5e1acdda9d6240f5bf30a3326e29d987531940ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 13/31] fix: restore the captured stream and close its
 descriptor

---
 fv3gfs/util/_capture_stream.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 2f472ab..f858308 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -13,13 +13,18 @@ def capture_stream(stream):
     # close the reading end, we won't need this
     orig_file_handle = os.dup(stream.fileno())
 
-    with tempfile.NamedTemporaryFile() as out:
-        # overwrite the streams fileno with a the pipe to be read by the forked
-        # process below
-        os.dup2(out.fileno(), stream.fileno())
-        yield out_stream
-        # restore the original file handle
-        os.dup2(orig_file_handle, stream.fileno())
-        # print logging info
-        out.seek(0)
-        out_stream.write(out.read())
+    try:
+        with tempfile.NamedTemporaryFile() as out:
+            # overwrite the streams fileno with a the pipe to be read by the forked
+            # process below
+            os.dup2(out.fileno(), stream.fileno())
+            try:
+                yield out_stream
+            finally:
+                # restore the original file handle
+                os.dup2(orig_file_handle, stream.fileno())
+            # print logging info
+            out.seek(0)
+            out_stream.write(out.read())
+    finally:
+        os.close(orig_file_handle)
-- 
2.43.0


From 0cebdaf7ed5dbf45f0080203575e147ed6da02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 14/31] fix: raise ConcurrencyError when the dummy comm has
 nothing to receive

---
 fv3gfs/util/testing/dummy_comm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index d93553e..91da608 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -41,11 +41,15 @@ class DummyComm:
 
     def _get_buffer(self, buffer_type, in_value):
         i_buffer = self._i_buffer.get(buffer_type, 0)
-        self._i_buffer[buffer_type] = i_buffer + 1
         if buffer_type not in self._buffer:
             self._buffer[buffer_type] = []
         if self.rank == 0:
             self._buffer[buffer_type].append(in_value)
+        elif i_buffer >= len(self._buffer[buffer_type]):
+            raise ConcurrencyError(
+                f"{buffer_type} called on rank {self.rank} before the root rank"
+            )
+        self._i_buffer[buffer_type] = i_buffer + 1
         return self._buffer[buffer_type][i_buffer]
 
     def _get_send_recv(self, from_rank):
@@ -54,9 +58,9 @@ class DummyComm:
             raise ConcurrencyError(
                 "buffer not initialized for send_recv, likely recv called before send"
             )
-        elif key not in self._buffer["send_recv"]:
+        elif len(self._buffer["send_recv"].get(key, [])) == 0:
             raise ConcurrencyError(
-                f"rank-specific buffer not initialized for send_recv, likely "
+                f"rank-specific buffer has no message for send_recv, likely "
                 f"recv called before send from rank {from_rank} to rank {self.rank}"
             )
         return_value = self._buffer["send_recv"][key].pop(0)
-- 
2.43.0


From 987b0258184d545c06491b1c996fb485ce9465eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 15/31] fix: isolate the ranks of a dummy comm from each other
 in bcast

---
 fv3gfs/util/testing/dummy_comm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index 91da608..776a4c5 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -95,7 +95,11 @@ class DummyComm:
             raise NotImplementedError(
                 "DummyComm assumes ranks are called in order, so root must be the bcast source"
             )
-        value = self._get_buffer("bcast", value)
+        # every rank must get an object of its own, as it would from MPI
+        if self.rank == root:
+            self._get_buffer("bcast", copy.deepcopy(value))
+        else:
+            value = copy.deepcopy(self._get_buffer("bcast", None))
         logger.debug(f"bcast {value} to rank {self.rank}")
         return value
 
-- 
2.43.0


From c15b64ff0a88c6e768ad45af3b61f887ce685dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 16/31] fix: keep successive gathers on a dummy comm apart

---
 fv3gfs/util/testing/dummy_comm.py | 33 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index 776a4c5..ed017e4 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -84,11 +84,9 @@ class DummyComm:
             self._buffer["scatter"] = []
         return self._buffer["scatter"]
 
-    @property
-    def _gather_buffer(self):
-        if "gather" not in self._buffer:
-            self._buffer["gather"] = [None for i in range(self.total_ranks)]
-        return self._buffer["gather"]
+    def _get_gather_queue(self, root, from_rank):
+        gather_buffer = self._buffer.setdefault("gather", {})
+        return gather_buffer.setdefault((root, from_rank), [])
 
     def bcast(self, value, root=0):
         if root != 0:
@@ -122,19 +120,24 @@ class DummyComm:
     def Gather(self, sendbuf, recvbuf, root=0, **kwargs):
         ensure_contiguous(sendbuf)
         ensure_contiguous(recvbuf)
-        gather_buffer = self._gather_buffer
-        gather_buffer[self.rank] = copy.deepcopy(sendbuf)
-        if self.rank == root:
-            # ndarrays are finnicky, have to check for None like this:
-            if any(item is None for item in gather_buffer):
-                uncalled_ranks = [
-                    i for i, val in enumerate(gather_buffer) if val is None
-                ]
+        if self.rank != root:
+            self._get_gather_queue(root, self.rank).append(copy.deepcopy(sendbuf))
+        else:
+            uncalled_ranks = [
+                i
+                for i in range(self.total_ranks)
+                if i != root and len(self._get_gather_queue(root, i)) == 0
+            ]
+            if len(uncalled_ranks) > 0:
                 raise ConcurrencyError(
                     f"gather called on root rank before ranks {uncalled_ranks}"
                 )
-            for i, sendbuf in enumerate(gather_buffer):
-                assign_array(recvbuf[i, :], sendbuf)
+            for i in range(self.total_ranks):
+                if i != root:
+                    sendbuf_i = self._get_gather_queue(root, i).pop(0)
+                else:
+                    sendbuf_i = sendbuf
+                assign_array(recvbuf[i, :], sendbuf_i)
 
     def Send(self, sendbuf, dest, **kwargs):
         ensure_contiguous(sendbuf)
-- 
2.43.0


From 175a0983c6c0c5b83b23c739cdbd8574410daffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 17/31] fix: match messages by tag in the dummy comm

---
 fv3gfs/util/testing/dummy_comm.py | 39 +++++++++++++++++--------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index ed017e4..92c4ba7 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -5,6 +5,8 @@ from ..utils import assign_array, ensure_contiguous
 
 logger = logging.getLogger("fv3gfs.util")
 
+ANY_TAG = -1  # default of mpi4py when receiving
+
 
 class ConcurrencyError(Exception):
     """Exception to denote that a rank cannot proceed because it is waiting on a
@@ -52,25 +54,26 @@ class DummyComm:
         self._i_buffer[buffer_type] = i_buffer + 1
         return self._buffer[buffer_type][i_buffer]
 
-    def _get_send_recv(self, from_rank):
+    def _get_send_recv(self, from_rank, tag):
         key = (from_rank, self.rank)
         if "send_recv" not in self._buffer:
             raise ConcurrencyError(
                 "buffer not initialized for send_recv, likely recv called before send"
             )
-        elif len(self._buffer["send_recv"].get(key, [])) == 0:
-            raise ConcurrencyError(
-                f"rank-specific buffer has no message for send_recv, likely "
-                f"recv called before send from rank {from_rank} to rank {self.rank}"
-            )
-        return_value = self._buffer["send_recv"][key].pop(0)
-        return return_value
+        messages = self._buffer["send_recv"].get(key, [])
+        for i, (message_tag, _) in enumerate(messages):
+            if tag in (message_tag, ANY_TAG):
+                return messages.pop(i)[1]
+        raise ConcurrencyError(
+            f"rank-specific buffer has no message for send_recv, likely "
+            f"recv called before send from rank {from_rank} to rank {self.rank}"
+        )
 
-    def _put_send_recv(self, value, to_rank):
+    def _put_send_recv(self, value, to_rank, tag):
         key = (self.rank, to_rank)
         self._buffer["send_recv"] = self._buffer.get("send_recv", {})
         self._buffer["send_recv"][key] = self._buffer["send_recv"].get(key, [])
-        self._buffer["send_recv"][key].append(copy.deepcopy(value))
+        self._buffer["send_recv"][key].append((tag, copy.deepcopy(value)))
 
     @property
     def _bcast_buffer(self):
@@ -139,25 +142,25 @@ class DummyComm:
                     sendbuf_i = sendbuf
                 assign_array(recvbuf[i, :], sendbuf_i)
 
-    def Send(self, sendbuf, dest, **kwargs):
+    def Send(self, sendbuf, dest, tag=0, **kwargs):
         ensure_contiguous(sendbuf)
-        self._put_send_recv(sendbuf, dest)
+        self._put_send_recv(sendbuf, dest, tag)
 
-    def Isend(self, sendbuf, dest, **kwargs):
-        result = self.Send(sendbuf, dest)
+    def Isend(self, sendbuf, dest, tag=0, **kwargs):
+        result = self.Send(sendbuf, dest, tag)
 
         def send():
             return result
 
         return AsyncResult(send)
 
-    def Recv(self, recvbuf, source, **kwargs):
+    def Recv(self, recvbuf, source, tag=ANY_TAG, **kwargs):
         ensure_contiguous(recvbuf)
-        assign_array(recvbuf, self._get_send_recv(source))
+        assign_array(recvbuf, self._get_send_recv(source, tag))
 
-    def Irecv(self, recvbuf, source, **kwargs):
+    def Irecv(self, recvbuf, source, tag=ANY_TAG, **kwargs):
         def receive():
-            return self.Recv(recvbuf, source)
+            return self.Recv(recvbuf, source, tag)
 
         return AsyncResult(receive)
 
-- 
2.43.0


From 7444e397141ab8240b96a6914f5377f2de7c299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 18/31] fix: share the groups of a split dummy comm between its
 ranks

---
 fv3gfs/util/testing/dummy_comm.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index 92c4ba7..46d958a 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -29,8 +29,7 @@ class DummyComm:
         self.total_ranks = total_ranks
         self._buffer = buffer_dict
         self._i_buffer = {}
-        self._split_comms = {}
-        self._split_buffers = {}
+        self._n_splits = 0
 
     def __repr__(self):
         return f"DummyComm(rank={self.rank}, total_ranks={self.total_ranks})"
@@ -167,14 +166,15 @@ class DummyComm:
     def Split(self, color, key):
         # key argument is ignored, assumes we're calling the ranks from least to
         # greatest when mocking Split
-        self._split_comms[color] = self._split_comms.get(color, [])
-        self._split_buffers[color] = self._split_buffers.get(color, {})
-        rank = len(self._split_comms[color])
+        splits = self._buffer.setdefault("split", {})
+        split_comms, split_buffer = splits.setdefault((self._n_splits, color), ([], {}))
+        self._n_splits += 1
+        rank = len(split_comms)
         total_ranks = rank + 1
         new_comm = DummyComm(
-            rank=rank, total_ranks=total_ranks, buffer_dict=self._split_buffers[color]
+            rank=rank, total_ranks=total_ranks, buffer_dict=split_buffer
         )
-        for comm in self._split_comms[color]:
+        for comm in split_comms:
             comm.total_ranks = total_ranks
-        self._split_comms[color].append(new_comm)
+        split_comms.append(new_comm)
         return new_comm
-- 
2.43.0


From 340e872f4b676e5d8881a5ff9cc71a6ebf9ab93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 19/31] fix: convert 64-bit dates exactly

---
 fv3gfs/util/time.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/time.py b/fv3gfs/util/time.py
index 54ce174..7df4dc9 100644
--- a/fv3gfs/util/time.py
+++ b/fv3gfs/util/time.py
@@ -18,6 +18,7 @@ FMS_TO_CFTIME_TYPE = {
 
 
 def datetime64_to_datetime(dt64: np.datetime64) -> datetime.datetime:
-    utc_start = np.datetime64(0, "s")
-    timestamp = (dt64 - utc_start) / np.timedelta64(1, "s")
-    return datetime.datetime.utcfromtimestamp(timestamp)
+    microseconds = dt64.astype("datetime64[us]").astype("int64")
+    return datetime.datetime(1970, 1, 1) + datetime.timedelta(
+        microseconds=int(microseconds)
+    )
-- 
2.43.0


From 50b97431e39199afa8b8d078eed0492428e95efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 20/31] fix: reject an inconsistent snapshot before storing any
 part of it

---
 fv3gfs/util/zarr_monitor.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 3608c99..b8c5a42 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -109,6 +109,9 @@ class ZarrMonitor:
         is "time" which is stored with dimensions [time].
         """
         self._ensure_writers_are_consistent(state)
+        # reject an inconsistent state before any part of it is stored
+        for name, quantity in state.items():
+            self._writers[name].ensure_compatible(quantity)  # type: ignore[index]
         for name, quantity in sorted(state.items(), key=lambda x: x[0]):
             self._writers[name].append(quantity)  # type: ignore[index]
 
@@ -171,7 +174,6 @@ class _ZarrVariableWriter:
             )
             new_shape[0] = self.i_time + 1
             self.array.resize(*new_shape)
-            self._ensure_compatible_attrs(quantity)
         self.sync_array()
 
         target_slice = (
@@ -212,6 +214,19 @@ class _ZarrVariableWriter:
             **quantity.attrs,
         }
 
+    def ensure_compatible(self, new_quantity):
+        if self.array is not None and self.rank == 0:
+            self._ensure_compatible_attrs(new_quantity)
+            self._ensure_compatible_shape(new_quantity)
+
+    def _ensure_compatible_shape(self, new_quantity):
+        new_shape = self._partitioner.tile.global_extent(new_quantity.metadata)
+        if tuple(self.array.shape[2:]) != tuple(new_shape):
+            raise ValueError(
+                f"value for {self.name} with tile extent {new_shape} "
+                f"does not match previously stored extent {self.array.shape[2:]}"
+            )
+
     def _ensure_compatible_attrs(self, new_quantity):
         new_attrs = self._get_attrs(new_quantity)
         if dict(self.array.attrs) != new_attrs:
@@ -268,12 +283,18 @@ class _ZarrTimeWriter(_ZarrVariableWriter):
             self.array.attrs["units"] = self._encoding_units
             self.array.attrs["calendar"] = self._encoding_calendar
 
-    def _encode_time(self, time):
+    def ensure_compatible(self, time):
+        if self.array is not None:
+            self._ensure_compatible_calendar(time)
+
+    def _ensure_compatible_calendar(self, time):
         if time.calendar != self._encoding_calendar:
             raise ValueError(
                 f"Calendar type of time, {time.calendar}, does not match the original "
                 f"calendar encoding, {self._encoding_calendar}."
             )
+
+    def _encode_time(self, time):
         return cftime.date2num(
             time, units=self._encoding_units, calendar=self._encoding_calendar
         )
-- 
2.43.0


From 93ad7effce58c6479d3ed35864d8b8711daa9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 21/31] fix: use zarr chunks of at least one point

---
 fv3gfs/util/zarr_monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index b8c5a42..530cc2d 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -245,7 +245,8 @@ def array_chunks(
     chunks_list = []
     for extent, dim, n_ranks in zip(tile_array_shape, array_dims, layout_by_dims):
         if dim in constants.INTERFACE_DIMS:
-            chunks_list.append(int((extent - 1) // n_ranks))
+            # a single interface still needs a chunk of its own
+            chunks_list.append(max(1, int((extent - 1) // n_ranks)))
         else:
             chunks_list.append(int(extent // n_ranks))
     return tuple(chunks_list)
-- 
2.43.0


From 6e63b326869db3c0af3e93b74c87bf3f94e144f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 22/31] fix: write states to file systems that cannot seek
 while writing

---
 fv3gfs/util/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 3c7f72a..67d2abd 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -15,9 +15,10 @@ def write_state(state: dict, filename: str) -> None:
     """
     if "time" not in state:
         raise ValueError('state must include a value for "time"')
-    ds = xr.to_dataset(state)
+    # remote files are not seekable while writing, so encode in memory
+    contents = xr.to_dataset(state).to_netcdf()
     with filesystem.open(filename, "wb") as f:
-        ds.to_netcdf(f)
+        f.write(contents)
 
 
 def _extract_time(value: xr.DataArray) -> cftime.datetime:
-- 
2.43.0


From 2d52489b07703dc97d68cbbd787cb998ef366362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 23/31] fix: read quantities in units of time as they were
 written

---
 fv3gfs/util/_xarray.py | 6 ++++++
 fv3gfs/util/io.py      | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_xarray.py b/fv3gfs/util/_xarray.py
index 7d1d0ae..0ea8197 100644
--- a/fv3gfs/util/_xarray.py
+++ b/fv3gfs/util/_xarray.py
@@ -12,6 +12,12 @@ def open_dataset(*args, **kwargs):
     return xr.open_dataset(*args, **kwargs)
 
 
+def decode_time(value):
+    """Decode a data array of dates encoded following the CF conventions."""
+    ds = xr.Dataset({"date": value.variable})
+    return xr.decode_cf(ds, use_cftime=True, decode_timedelta=False)["date"]
+
+
 def to_dataset(state):
     data_vars = {
         name: value.data_array for name, value in state.items() if name != "time"
diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 67d2abd..ca3a120 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -47,10 +47,11 @@ def read_state(filename: str) -> dict:
     """
     out_dict = {}
     with filesystem.open(filename, "rb") as f:
-        ds = xr.open_dataset(f, use_cftime=True)
+        # only the time of the state is a date, quantities in time units are not
+        ds = xr.open_dataset(f, decode_times=False)
         for name, value in ds.data_vars.items():
             if name == "time":
-                out_dict[name] = _extract_time(value)
+                out_dict[name] = _extract_time(xr.decode_time(value))
             else:
                 out_dict[name] = Quantity.from_data_array(value)
     return out_dict
-- 
2.43.0


From 69213ad567ec18bf5c45ca3b9e9093bf7fe3dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 24/31] fix: read quantities which are named like a dimension

---
 fv3gfs/util/io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index ca3a120..d8c2f3b 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -49,11 +49,17 @@ def read_state(filename: str) -> dict:
     with filesystem.open(filename, "rb") as f:
         # only the time of the state is a date, quantities in time units are not
         ds = xr.open_dataset(f, decode_times=False)
-        for name, value in ds.data_vars.items():
+        for name in ds.variables:
+            value = ds[name]
             if name == "time":
                 out_dict[name] = _extract_time(xr.decode_time(value))
-            else:
+            elif name in ds.data_vars:
                 out_dict[name] = Quantity.from_data_array(value)
+            elif "units" in value.attrs:
+                # named like a dimension, which makes it an immutable coordinate
+                out_dict[name] = Quantity(
+                    value.values.copy(), value.dims, value.attrs["units"]
+                )
     return out_dict
 
 
-- 
2.43.0


From 242582a11ea7953823034da4ed065cc9e2eb7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 25/31] fix: load restart variables in units of time

---
 fv3gfs/util/_legacy_restart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/_legacy_restart.py b/fv3gfs/util/_legacy_restart.py
index 3d74740..984a46f 100644
--- a/fv3gfs/util/_legacy_restart.py
+++ b/fv3gfs/util/_legacy_restart.py
@@ -140,7 +140,8 @@ def prepend_label(filename, label=None):
 def load_partial_state_from_restart_file(
     file, restart_properties: RestartProperties, only_names=None
 ):
-    ds = xr.open_dataset(file).isel(Time=0).drop_vars("Time")
+    # restart data in units of time is not to be decoded as dates
+    ds = xr.open_dataset(file, decode_times=False).isel(Time=0).drop_vars("Time")
     state = map_keys(ds.data_vars, _get_restart_standard_names(restart_properties))
     state = _apply_restart_metadata(state, restart_properties)
     if only_names is None:
-- 
2.43.0


From 9323ca0c69b2896226749ceb82daa55de9382a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 26/31] fix: accept any iterable of names when opening restarts

---
 fv3gfs/util/_legacy_restart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fv3gfs/util/_legacy_restart.py b/fv3gfs/util/_legacy_restart.py
index 984a46f..08d0e8a 100644
--- a/fv3gfs/util/_legacy_restart.py
+++ b/fv3gfs/util/_legacy_restart.py
@@ -41,6 +41,8 @@ def open_restart(
         restart_properties = RESTART_PROPERTIES
     else:
         restart_properties = {**tracer_properties, **RESTART_PROPERTIES}
+    if only_names is not None:
+        only_names = set(only_names)  # is searched repeatedly
     rank = communicator.rank
     tile_index = communicator.partitioner.tile_index(rank)
     state = {}
-- 
2.43.0


From cf0122c6bfa5e9b73ac65f3ed0ec2faa408b1a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 27/31] fix: scatter and gather zero-dimensional quantities

---
 fv3gfs/util/communicator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index a251792..6f489d2 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -116,7 +116,7 @@ class Communicator:
                         global_extent=metadata.extent,
                         overlap=True,
                     )
-                    sendbuf[rank, :] = send_quantity.view[subtile_slice]
+                    sendbuf[rank] = send_quantity.view[subtile_slice]
                 self._Scatter(
                     metadata.np,
                     sendbuf,
@@ -195,7 +195,7 @@ class Communicator:
                         global_extent=recv_quantity.extent,
                         overlap=True,
                     )
-                    recv_quantity.view[to_slice] = recvbuf[rank, :]
+                    recv_quantity.view[to_slice] = recvbuf[rank]
                 result = recv_quantity
         else:
             self._Gather(
-- 
2.43.0


From d81713a0fe7beb3e2e16bbf57988d1abffb70b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 28/31] Restore fv3gfs/util/testing as it was

The five commits to the dummy communicator touched a directory of test support,
which is to stay as it is.
---
 fv3gfs/util/testing/dummy_comm.py | 102 +++++++++++++-----------------
 1 file changed, 44 insertions(+), 58 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index 46d958a..d93553e 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -5,8 +5,6 @@ from ..utils import assign_array, ensure_contiguous
 
 logger = logging.getLogger("fv3gfs.util")
 
-ANY_TAG = -1  # default of mpi4py when receiving
-
 
 class ConcurrencyError(Exception):
     """Exception to denote that a rank cannot proceed because it is waiting on a
@@ -29,7 +27,8 @@ class DummyComm:
         self.total_ranks = total_ranks
         self._buffer = buffer_dict
         self._i_buffer = {}
-        self._n_splits = 0
+        self._split_comms = {}
+        self._split_buffers = {}
 
     def __repr__(self):
         return f"DummyComm(rank={self.rank}, total_ranks={self.total_ranks})"
@@ -42,37 +41,32 @@ class DummyComm:
 
     def _get_buffer(self, buffer_type, in_value):
         i_buffer = self._i_buffer.get(buffer_type, 0)
+        self._i_buffer[buffer_type] = i_buffer + 1
         if buffer_type not in self._buffer:
             self._buffer[buffer_type] = []
         if self.rank == 0:
             self._buffer[buffer_type].append(in_value)
-        elif i_buffer >= len(self._buffer[buffer_type]):
-            raise ConcurrencyError(
-                f"{buffer_type} called on rank {self.rank} before the root rank"
-            )
-        self._i_buffer[buffer_type] = i_buffer + 1
         return self._buffer[buffer_type][i_buffer]
 
-    def _get_send_recv(self, from_rank, tag):
+    def _get_send_recv(self, from_rank):
         key = (from_rank, self.rank)
         if "send_recv" not in self._buffer:
             raise ConcurrencyError(
                 "buffer not initialized for send_recv, likely recv called before send"
             )
-        messages = self._buffer["send_recv"].get(key, [])
-        for i, (message_tag, _) in enumerate(messages):
-            if tag in (message_tag, ANY_TAG):
-                return messages.pop(i)[1]
-        raise ConcurrencyError(
-            f"rank-specific buffer has no message for send_recv, likely "
-            f"recv called before send from rank {from_rank} to rank {self.rank}"
-        )
+        elif key not in self._buffer["send_recv"]:
+            raise ConcurrencyError(
+                f"rank-specific buffer not initialized for send_recv, likely "
+                f"recv called before send from rank {from_rank} to rank {self.rank}"
+            )
+        return_value = self._buffer["send_recv"][key].pop(0)
+        return return_value
 
-    def _put_send_recv(self, value, to_rank, tag):
+    def _put_send_recv(self, value, to_rank):
         key = (self.rank, to_rank)
         self._buffer["send_recv"] = self._buffer.get("send_recv", {})
         self._buffer["send_recv"][key] = self._buffer["send_recv"].get(key, [])
-        self._buffer["send_recv"][key].append((tag, copy.deepcopy(value)))
+        self._buffer["send_recv"][key].append(copy.deepcopy(value))
 
     @property
     def _bcast_buffer(self):
@@ -86,20 +80,18 @@ class DummyComm:
             self._buffer["scatter"] = []
         return self._buffer["scatter"]
 
-    def _get_gather_queue(self, root, from_rank):
-        gather_buffer = self._buffer.setdefault("gather", {})
-        return gather_buffer.setdefault((root, from_rank), [])
+    @property
+    def _gather_buffer(self):
+        if "gather" not in self._buffer:
+            self._buffer["gather"] = [None for i in range(self.total_ranks)]
+        return self._buffer["gather"]
 
     def bcast(self, value, root=0):
         if root != 0:
             raise NotImplementedError(
                 "DummyComm assumes ranks are called in order, so root must be the bcast source"
             )
-        # every rank must get an object of its own, as it would from MPI
-        if self.rank == root:
-            self._get_buffer("bcast", copy.deepcopy(value))
-        else:
-            value = copy.deepcopy(self._get_buffer("bcast", None))
+        value = self._get_buffer("bcast", value)
         logger.debug(f"bcast {value} to rank {self.rank}")
         return value
 
@@ -122,59 +114,53 @@ class DummyComm:
     def Gather(self, sendbuf, recvbuf, root=0, **kwargs):
         ensure_contiguous(sendbuf)
         ensure_contiguous(recvbuf)
-        if self.rank != root:
-            self._get_gather_queue(root, self.rank).append(copy.deepcopy(sendbuf))
-        else:
-            uncalled_ranks = [
-                i
-                for i in range(self.total_ranks)
-                if i != root and len(self._get_gather_queue(root, i)) == 0
-            ]
-            if len(uncalled_ranks) > 0:
+        gather_buffer = self._gather_buffer
+        gather_buffer[self.rank] = copy.deepcopy(sendbuf)
+        if self.rank == root:
+            # ndarrays are finnicky, have to check for None like this:
+            if any(item is None for item in gather_buffer):
+                uncalled_ranks = [
+                    i for i, val in enumerate(gather_buffer) if val is None
+                ]
                 raise ConcurrencyError(
                     f"gather called on root rank before ranks {uncalled_ranks}"
                 )
-            for i in range(self.total_ranks):
-                if i != root:
-                    sendbuf_i = self._get_gather_queue(root, i).pop(0)
-                else:
-                    sendbuf_i = sendbuf
-                assign_array(recvbuf[i, :], sendbuf_i)
-
-    def Send(self, sendbuf, dest, tag=0, **kwargs):
+            for i, sendbuf in enumerate(gather_buffer):
+                assign_array(recvbuf[i, :], sendbuf)
+
+    def Send(self, sendbuf, dest, **kwargs):
         ensure_contiguous(sendbuf)
-        self._put_send_recv(sendbuf, dest, tag)
+        self._put_send_recv(sendbuf, dest)
 
-    def Isend(self, sendbuf, dest, tag=0, **kwargs):
-        result = self.Send(sendbuf, dest, tag)
+    def Isend(self, sendbuf, dest, **kwargs):
+        result = self.Send(sendbuf, dest)
 
         def send():
             return result
 
         return AsyncResult(send)
 
-    def Recv(self, recvbuf, source, tag=ANY_TAG, **kwargs):
+    def Recv(self, recvbuf, source, **kwargs):
         ensure_contiguous(recvbuf)
-        assign_array(recvbuf, self._get_send_recv(source, tag))
+        assign_array(recvbuf, self._get_send_recv(source))
 
-    def Irecv(self, recvbuf, source, tag=ANY_TAG, **kwargs):
+    def Irecv(self, recvbuf, source, **kwargs):
         def receive():
-            return self.Recv(recvbuf, source, tag)
+            return self.Recv(recvbuf, source)
 
         return AsyncResult(receive)
 
     def Split(self, color, key):
         # key argument is ignored, assumes we're calling the ranks from least to
         # greatest when mocking Split
-        splits = self._buffer.setdefault("split", {})
-        split_comms, split_buffer = splits.setdefault((self._n_splits, color), ([], {}))
-        self._n_splits += 1
-        rank = len(split_comms)
+        self._split_comms[color] = self._split_comms.get(color, [])
+        self._split_buffers[color] = self._split_buffers.get(color, {})
+        rank = len(self._split_comms[color])
         total_ranks = rank + 1
         new_comm = DummyComm(
-            rank=rank, total_ranks=total_ranks, buffer_dict=split_buffer
+            rank=rank, total_ranks=total_ranks, buffer_dict=self._split_buffers[color]
         )
-        for comm in split_comms:
+        for comm in self._split_comms[color]:
             comm.total_ranks = total_ranks
-        split_comms.append(new_comm)
+        self._split_comms[color].append(new_comm)
         return new_comm
-- 
2.43.0


From 21415c82c8797f93e0b284ce5b74ec12cb8172cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 29/31] fix: keep halo update tags within what every MPI
 library supports

The MPI standard guarantees message tags up to 32767 only (several libraries allow about
two or eight million).  Every halo update took a new tag, so that long runs failed.
---
 fv3gfs/util/communicator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 6f489d2..c34cdf1 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -18,6 +18,8 @@ __all__ = [
 
 logger = logging.getLogger("fv3gfs.util")
 
+MAX_TAG = 32767  # the largest message tag which every MPI library supports
+
 
 def bcast_metadata_list(comm, quantity_list):
     is_root = comm.Get_rank() == constants.ROOT_RANK
@@ -320,6 +322,8 @@ class CubedSphereCommunicator(Communicator):
 
     def _get_halo_tag(self) -> int:
         self._last_halo_tag += 1
+        if self._last_halo_tag > MAX_TAG:
+            self._last_halo_tag = 1
         return self._last_halo_tag
 
     @property
-- 
2.43.0


From 0e59983534e1213115ce5d336e9093e163c5e836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 30/31] fix: store variables with a dimension of length zero in
 zarr

---
 fv3gfs/util/zarr_monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 530cc2d..877623e 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -248,7 +248,8 @@ def array_chunks(
             # a single interface still needs a chunk of its own
             chunks_list.append(max(1, int((extent - 1) // n_ranks)))
         else:
-            chunks_list.append(int(extent // n_ranks))
+            # zarr needs chunks of at least one point, even if there are no points
+            chunks_list.append(max(1, int(extent // n_ranks)))
     return tuple(chunks_list)
 
 
-- 
2.43.0


From 97a3052182d707582303cc5aa0ce676db61f2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 31/31] fix: give storages of a QuantityFactory the origin of
 the quantity

The fallback for allocators without default_origin swallowed the TypeError of the
argument being given twice, so every storage had default origin zero.
---
 fv3gfs/util/initialization/allocator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/initialization/allocator.py b/fv3gfs/util/initialization/allocator.py
index 9040c5f..f2c52a1 100644
--- a/fv3gfs/util/initialization/allocator.py
+++ b/fv3gfs/util/initialization/allocator.py
@@ -11,7 +11,8 @@ except ImportError:
 def _wrap_storage_call(function, backend):
     def wrapped(shape, dtype=float, **kwargs):
         kwargs["managed_memory"] = True
-        return function(backend, [0] * len(shape), shape, dtype, **kwargs)
+        kwargs.setdefault("default_origin", [0] * len(shape))
+        return function(backend, shape=shape, dtype=dtype, **kwargs)
 
     wrapped.__name__ = function.__name__
     return wrapped
-- 
2.43.0

