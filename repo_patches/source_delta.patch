From 9155a965c4265ac3024fcb67477279a73ea07853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 001/103] fix: gather scrambles or refuses arrays that are not
 C contiguous

A transposed (or otherwise not C-ordered) array was sent in memory order
and gathered with its elements in the wrong place; a strided one raised
BufferError on some ranks only, leaving the others waiting.
---
 caput/mpiarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 69bba87..e64e8ba 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1552,7 +1552,9 @@ class MPIArray(np.ndarray):
 
             # Send the data
             if self.comm.rank == ri:
-                request = self.comm.Isend(self._prep_buf(self.local_array), dest=rank)
+                # The receiver expects C order, and MPI needs a contiguous buffer
+                sbuf = np.ascontiguousarray(self.local_array)
+                request = self.comm.Isend(self._prep_buf(sbuf), dest=rank)
 
                 # Wait until the data has been sent
                 stat = mpitools.MPI.Status()
-- 
2.43.0


From 1eee58138f976698e23a8691793ef13ab59bc885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:39 +0000
Subject: [PATCH 002/103] fix: gather does not wait for the root's own data to
 arrive

On the root the request of its receive was overwritten by that of its own
send, so the receive was never completed before the buffer was read.
---
 caput/mpiarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index e64e8ba..8a989cc 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1548,7 +1548,7 @@ class MPIArray(np.ndarray):
                 tbuf = np.empty(tshape, dtype=self.dtype)
 
                 # Set up the non-blocking receive request
-                request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
+                recv_request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
 
             # Send the data
             if self.comm.rank == ri:
@@ -1568,7 +1568,7 @@ class MPIArray(np.ndarray):
             if self.comm.rank == rank:
                 # Wait until the data has arrived
                 stat = mpitools.MPI.Status()
-                request.Wait(status=stat)
+                recv_request.Wait(status=stat)
 
                 if stat.error != mpitools.MPI.SUCCESS:
                     raise RuntimeError(
-- 
2.43.0


From f47f56a9ce18598c689d48af412097214140457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:00 +0000
Subject: [PATCH 003/103] fix: reshape with a wildcard fails on ranks with an
 empty share

A rank holding none of the distributed axis raised ZeroDivisionError for a
reshape all other ranks performed, and accepted incompatible shapes that
all others refused.
---
 caput/mpiarray.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 8a989cc..c533020 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1461,23 +1461,29 @@ class MPIArray(np.ndarray):
         # Fill in the missing value
         local_shape = list(shape)
         new_axis = local_shape.index(None)
-        local_shape[new_axis] = self.local_shape[self.axis]
+        # Use a placeholder length while checking, so that ranks which hold none of the
+        # distributed axis come to the same conclusion as all the others
+        local_shape[new_axis] = 1
 
         # We will check the reshaping in two steps so we can be sure that we are not
         # messing up the axis distribution. In both cases we will *include* the
         # distributed axis in the test as this takes care of cases where we are adding
         # length-1 axes where there are currently no axes.
         # First, we test any axes after the distributed axis...
-        post_shape = self.local_shape[self.axis :]
+        post_shape = (1, *self.local_shape[self.axis + 1 :])
         new_post_shape: list = local_shape[new_axis:]
         new_post_shape: tuple = _check_shapes(post_shape, new_post_shape)
         # Then, we test any axes before the distributed axis...
-        pre_shape = self.local_shape[: (self.axis + 1)]
+        pre_shape = (*self.local_shape[: self.axis], 1)
         new_pre_shape: list = local_shape[: (new_axis + 1)]
         new_pre_shape: tuple = _check_shapes(pre_shape, new_pre_shape)
 
         # Construct the new fleshed out local array shape
-        local_shape = new_pre_shape[:new_axis] + new_post_shape
+        local_shape = (
+            *new_pre_shape[:new_axis],
+            self.local_shape[self.axis],
+            *new_post_shape[1:],
+        )
 
         # Now we actually try the resize...
         new_data = self.local_array.reshape(local_shape, order=order)
-- 
2.43.0


From e051b886037c3b1df80c84475057e59e1ccdea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:24 +0000
Subject: [PATCH 004/103] fix: transpose fails for None and for axes counted
 from the end

Both forms are documented (or follow from the numpy call), and np.transpose(a)
uses the first.
---
 caput/mpiarray.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index c533020..121e51a 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1382,14 +1382,17 @@ class MPIArray(np.ndarray):
 
         if len(axes) == 1 and isinstance(axes[0], tuple | list):
             axes: list | tuple = axes[0]
-        elif axes is None or axes == ():
+        elif axes in ((), (None,)):
             axes: list = list(range(self.ndim - 1, -1, -1))
 
+        # Normalise any axes counted from the end
+        axes: list = [ax + self.ndim if ax < 0 else ax for ax in axes]
+
         tdata._global_shape = tuple(self.global_shape[ax] for ax in axes)
         tdata._local_shape = tuple(self.local_shape[ax] for ax in axes)
         tdata._local_offset = tuple(self.local_offset[ax] for ax in axes)
 
-        tdata._axis = list(axes).index(self.axis)
+        tdata._axis = axes.index(self.axis)
         tdata._comm = self._comm
 
         return tdata
-- 
2.43.0


From bbd9fe4b73b794c71a9b34040948e614f9a1b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:24 +0000
Subject: [PATCH 005/103] fix: the T attribute and swapaxes lose track of the
 distributed axis

numpy implements both without calling transpose, so the result kept the
axis number, and got a wrong global shape and offset.
---
 caput/mpiarray.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 121e51a..0f92a7c 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1397,6 +1397,18 @@ class MPIArray(np.ndarray):
 
         return tdata
 
+    @property
+    def T(self) -> MPIArray:  # noqa: N802
+        """View of the array with the order of the axes reversed."""
+        return self.transpose()
+
+    def swapaxes(self, axis1: int, axis2: int) -> MPIArray:
+        """View of the array with two axes interchanged."""
+        axes = list(range(self.ndim))
+        axes[axis1], axes[axis2] = axes[axis2], axes[axis1]
+
+        return self.transpose(axes)
+
     def reshape(self, *shape: Sequence[int | None], order: str = "C") -> MPIArray:  # noqa: D417
         r"""Reshape the array.
 
-- 
2.43.0


From 7e7e64782b6fcfd0a3cf4252355f02346dc03bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:06 +0000
Subject: [PATCH 006/103] fix: accumulating over the distributed axis counted
 from the end is not refused

It silently accumulated each rank's share on its own.
---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 0f92a7c..8e9040f 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2022,7 +2022,7 @@ class MPIArray(np.ndarray):
     ) -> tuple[int, 3]:
         """Validate and infer the final distributed axis for a ufunc accumulation."""
         # An accumulation should give an array the same shape as the input.
-        if axis == input_.axis:
+        if (axis if axis >= 0 else input_.ndim + axis) == input_.axis:
             raise AxisException(
                 f"Can not accumulate over the distributed axis (axis={input_.axis})"
             )
-- 
2.43.0


From 7ba423c34ff69fd0317b1a17468c0bc33f4df8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:59 +0000
Subject: [PATCH 007/103] fix: global slices with a step, or ending at a rank
 boundary, select the wrong data

The step was applied from the start of each rank's share instead of from
the global start, negative steps and out of range negative bounds selected
wrong elements, and a slice ending exactly where a rank starts gave an
empty array there instead of None.
---
 caput/mpiarray.py | 55 +++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 8e9040f..d49aff5 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -338,48 +338,33 @@ class _global_resolver:
             )
             fullslice = False
 
-        # If it's a slice, then resolve any offsets
-        # If any of start or stop is defined then mark that this is not a complete slice
-        # Also mark if there is any actual data on this rank
+        # If it's a slice, then restrict it to the part held on this rank
+        # If any of start, stop or step is defined then this is not a complete slice
         elif isinstance(slice_list[self.axis], slice):
             s = slice_list[self.axis]
-            start = s.start
-            stop = s.stop
-            step = s.step
-
-            # Check if start is defined, and modify slice
-            if start is not None:
-                start = (
-                    start if start >= 0 else start + self.length
-                )  # Resolve negative indices
-                fullslice = False
-                start = start - self.offset
-            else:
-                start = 0
-
-            # Check if stop is defined and modify slice
-            if stop is not None:
-                stop = (
-                    stop if stop >= 0 else stop + self.length
-                )  # Resolve negative indices
-                fullslice = False
-                stop = stop - self.offset
-            else:
-                stop = local_length
+            fullslice = s == slice(None)
 
-            # If step is defined we don't need to adjust this, but it's no longer a
-            # complete slice
-            if step is not None:
-                fullslice = False
+            # Resolve against the global axis, which takes care of negative indices
+            start, stop, step = s.indices(self.length)
+            end = self.offset + local_length
+
+            # Find the first selected index held on this rank, and where to stop
+            if step > 0:
+                start += max(0, -((start - self.offset) // step)) * step
+                stop = min(stop, end)
+            else:
+                start += max(0, -((end - 1 - start) // -step)) * step
+                stop = max(stop, self.offset - 1)
 
             # If there is no data on this node place None on the parallel axis
-            if start >= local_length or stop < 0:
+            if len(range(start, stop, step)) == 0:
                 slice_list[self.axis] = None
             else:
-                # Normalise the indices and create slice
-                start = max(min(start, local_length), 0)
-                stop = max(min(stop, local_length), 0)
-                slice_list[self.axis] = slice(start, stop, step)
+                # Make the indices local, a negative step may need to include index zero
+                stop = stop - self.offset
+                slice_list[self.axis] = slice(
+                    start - self.offset, stop if stop >= 0 else None, s.step
+                )
 
         return tuple(slice_list), fullslice
 
-- 
2.43.0


From 68308abf29a0cee5990e1858663ff7481dc9e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:59 +0000
Subject: [PATCH 008/103] fix: global indexing ignores indices counted from the
 end and numpy integers

A negative index on the distributed axis addressed nothing on any rank, a
numpy integer was taken as a local index on every rank, and a lone Ellipsis
raised TypeError.
---
 caput/mpiarray.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index d49aff5..e670061 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -304,9 +304,9 @@ class _global_resolver:
         ndim = self.array.ndim
         local_length = self.array.shape[self.axis]
 
-        # Expand a single integer or slice index
-        if isinstance(slobj, int | slice):
-            slobj: SelectionTupleLike = (slobj, Ellipsis)
+        # Expand a single index
+        if not isinstance(slobj, tuple):
+            slobj: SelectionTupleLike = (slobj,)
 
         # Add an ellipsis if length of slice object is too short
         if isinstance(slobj, tuple) and len(slobj) < ndim:
@@ -331,8 +331,9 @@ class _global_resolver:
 
         # Process the parallel axis. Calculate the correct index for the
         # containing rank, and set None on all others.
-        if isinstance(slice_list[self.axis], int):
-            index = slice_list[self.axis] - self.offset
+        if isinstance(slice_list[self.axis], int | np.integer):
+            index = int(slice_list[self.axis])
+            index = (index if index >= 0 else index + self.length) - self.offset
             slice_list[self.axis] = (
                 None if (index < 0 or index >= local_length) else index
             )
-- 
2.43.0


From 9e6b75c1eec9f1fec33b269308e722c985ada87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:13 +0000
Subject: [PATCH 009/103] fix: lock_file hides the writer's exception and
 leaves the lock behind

If the temporary file was not created yet, or is a zarr directory, removing
it raised another exception which replaced the writer's, and the lock file
was never removed.
---
 caput/memdata/_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_io.py b/caput/memdata/_io.py
index 09bddec..e0139d5 100644
--- a/caput/memdata/_io.py
+++ b/caput/memdata/_io.py
@@ -8,6 +8,8 @@ from __future__ import annotations
 
 import os
 
+from . import fileformats
+
 
 def open_h5py_mpi(f, mode, use_mpi=True, comm=None):
     """Ensure that we have an h5py File object.
@@ -110,8 +112,9 @@ class lock_file:
         if self.rank0:
             # Check if exception was raised and delete the temp file if needed
             if exc_type is not None:
+                # It may not have been created yet, or be a directory (i.e. zarr)
                 if not self.preserve:
-                    os.remove(self.tmpfile)
+                    fileformats.remove_file_or_dir(self.tmpfile)
             # Otherwise things were successful and we should move the file over
             else:
                 os.rename(self.tmpfile, self.filename)
-- 
2.43.0


From 4326f858aeae18d0f4cfdbd8ff43f2cae3e24fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:13 +0000
Subject: [PATCH 010/103] fix: GroupIOMixin.write_output fails for every output

MemGroup was only imported for type checking, and a bare file name has no
directory to create.
---
 caput/pipeline/extensions/_extensions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 047b938..a0fc3ea 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -348,6 +348,8 @@ class GroupIOMixin:
         """
         import h5py
 
+        from ...memdata import MemGroup
+
         file_format = fileformats.check_file_format(filename, file_format, output)
 
         try:
@@ -358,7 +360,7 @@ class GroupIOMixin:
 
         # Ensure parent directory is present.
         dirname = os.path.dirname(filename)
-        if not os.path.isdir(dirname):
+        if dirname != "" and not os.path.isdir(dirname):
             try:
                 os.makedirs(dirname)
             except OSError as e:
-- 
2.43.0


From 06e2451190ddc3f81d2396069f3af0372d26bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:24 +0000
Subject: [PATCH 011/103] fix: empty selections of distributed files gave
 negative lengths

---
 caput/mpiarray.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index e670061..2e9ba6c 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2199,8 +2199,7 @@ def _partition_sel(
 def _len_slice(slice_: slice, n: int) -> int:
     """Calculate the output length of a slice applied to an axis of length n."""
     if isinstance(slice_, slice):
-        start, stop, step = slice_.indices(n)
-        return 1 + (stop - start - 1) // step
+        return len(range(*slice_.indices(n)))
 
     return len(slice_)
 
-- 
2.43.0


From 09fbd715b8b32283786f011a48e60e6e527bc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:24 +0000
Subject: [PATCH 012/103] fix: a single slice could not be used as a selection
 when loading distributed data

---
 caput/mpiarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 2e9ba6c..b9c1bf9 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2242,6 +2242,8 @@ def _expand_sel(sel: SelectionLike | None, naxis: int) -> list[slice | int]:
     """Expand the selection to the full dimensions."""
     if sel is None:
         sel = [slice(None)] * naxis
+    elif isinstance(sel, slice):
+        sel = [sel]
     if len(sel) < naxis:
         sel = list(sel) + [slice(None)] * (naxis - len(sel))
     return list(sel)
-- 
2.43.0


From be9935ad82940af2222f451f95b4f1d582f2eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:24 +0000
Subject: [PATCH 013/103] fix: hints could not override a dataset stored as
 distributed

---
 caput/memdata/_memh5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index a782107..33a9f9b 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2896,9 +2896,8 @@ def _distributed_group_from_file(
             else:
                 dset_hints = hints_dict.get(item.name, {})
 
-                distributed = hints and (
-                    dset_hints.get("distributed", False)
-                    or item.attrs.get("__memh5_distributed_dset", False)
+                distributed = hints and dset_hints.get(
+                    "distributed", item.attrs.get("__memh5_distributed_dset", False)
                 )
                 # Check if we are in a distributed dataset
                 if distributed:
-- 
2.43.0


From af144ddff329f07d1db86d47e2998cb629836ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:35 +0000
Subject: [PATCH 014/103] fix: zarr lock directories were made in the wrong
 place for files outside the working directory

---
 caput/memdata/_memh5.py      |  2 +-
 caput/memdata/fileformats.py | 11 +++++++++++
 caput/mpiarray.py            |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 33a9f9b..797eb38 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2819,7 +2819,7 @@ def _distributed_group_to_file(
     if file_format == fileformats.Zarr:
         with (
             fileformats.ZarrProcessSynchronizer(
-                f".{fname}.sync", group.comm
+                fileformats._sync_name(fname), group.comm
             ) as synchronizer,
             zarr.open_group(store=fname, mode="r+", synchronizer=synchronizer) as f,
         ):
diff --git a/caput/memdata/fileformats.py b/caput/memdata/fileformats.py
index 204a04d..4e762ec 100644
--- a/caput/memdata/fileformats.py
+++ b/caput/memdata/fileformats.py
@@ -361,6 +361,17 @@ class ZarrProcessSynchronizer:
             remove_file_or_dir(self.name)
 
 
+def _sync_name(name):
+    """Name of the lock directory used when writing `name` in parallel.
+
+    This is a hidden directory beside the file.
+    """
+    import os
+
+    base, fname = os.path.split(name)
+    return os.path.join(base, f".{fname}.sync")
+
+
 def remove_file_or_dir(name):
     """Remove the file or directory with the given name.
 
diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index b9c1bf9..f0a5fd0 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1243,7 +1243,7 @@ class MPIArray(np.ndarray):
         if isinstance(f, str):
             if self.comm.rank == 0 and create:
                 zarr.open(store=f, mode=mode)
-            lockfile = f".{f}.sync"
+            lockfile = fileformats._sync_name(f)
             self.comm.Barrier()
             group = zarr.open_group(
                 store=f,
-- 
2.43.0


From 968119731232c09412b9891bbeb793ed3b3cc5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:31 +0000
Subject: [PATCH 015/103] fix: copying a group into a file ignored selections
 and failed for groups on disk

---
 caput/memdata/_memh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 797eb38..191cfd9 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2574,7 +2574,10 @@ def deep_group_copy(
         elif to_file:
             # If we shouldn't convert we at least need to ensure there aren't any
             # Unicode characters before writing
-            data = typeutils.check_unicode(entry)
+            if typeutils.has_unicode(data.dtype):
+                raise TypeError(
+                    f'Can not write dataset "{dset.name!s}" of unicode type into HDF5.'
+                )
 
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
-- 
2.43.0


From b0befcc369b0b7f0653a1e0acd3d119a1047f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:28 +0000
Subject: [PATCH 016/103] fix: MemGroup.from_group fails for distributed groups

---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 191cfd9..338a693 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -432,7 +432,7 @@ class MemGroup(_BaseGroup):
             If the input group is not a supported type.
         """
         if isinstance(group, MemGroup):
-            self = cls()
+            self = cls(distributed=group.distributed, comm=group.comm)
             deep_group_copy(group, self)
             return self
 
-- 
2.43.0


From 3a66f5c2ef145a9117f0871ab358de02a71c2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:28 +0000
Subject: [PATCH 017/103] fix: dataset_common_to_distributed splits the first
 axis whatever axis is asked for

---
 caput/memdata/_memh5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 338a693..15bb6fe 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -942,7 +942,9 @@ class MemGroup(_BaseGroup):
         md = mpiarray.MPIArray(
             dset_shape, axis=distributed_axis, comm=self.comm, dtype=dset_type
         )
-        md.local_array[:] = dset[sd:ed].copy()
+        local_slice = [slice(None)] * len(dset_shape)
+        local_slice[distributed_axis] = slice(sd, ed)
+        md.local_array[:] = dset[tuple(local_slice)].copy()
         attr_dict = {}  # temporarily save attrs of this dataset
         copyattrs(dset.attrs, attr_dict)
         del dset
-- 
2.43.0


From 57a00857f766d3545cf4a3c3966a3b57ce4c0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:28 +0000
Subject: [PATCH 018/103] fix: dataset_distributed_to_common fails on one
 process and garbles string and record types

---
 caput/memdata/_memh5.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 15bb6fe..6b9c39f 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -987,14 +987,8 @@ class MemGroup(_BaseGroup):
         dset_chunks = dset.chunks
         dset_compression = dset.compression
         dset_compression_opts = dset.compression_opts
-        global_array = np.zeros(dset_shape, dtype=dset_type)
-        local_start = dset.local_offset
-        nproc = 1 if self.comm is None else self.comm.size
         # gather local distributed dataset to a global array for all procs
-        for rank in range(nproc):
-            mpitools.gather_local(
-                global_array, dset.local_data, local_start, root=rank, comm=self.comm
-            )
+        global_array = dset.data.allgather()
         attr_dict = {}  # temporarily save attrs of this dataset
         copyattrs(dset.attrs, attr_dict)
         del dset
-- 
2.43.0


From 54904831356feeb47cb105e94a9eb8bfec1fbf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:28 +0000
Subject: [PATCH 019/103] fix: redistributing a deep copy of a dataset
 redistributes the original

---
 caput/memdata/_memh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 6b9c39f..243fa67 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1044,7 +1044,10 @@ class MemDataset(_MemObjMixin):
             Deep copy of this dataset.
         """
         new = self.__class__.__new__(self.__class__)
-        super(MemDataset, new).__init__(name=self.name, storage_root=self._storage_root)
+        # A deep copy is detached from the tree the original is stored in
+        super(MemDataset, new).__init__(
+            name=self.name, storage_root=self._storage_root if shallow else None
+        )
 
         _copy = deepcopy if not shallow else lambda x: x
         # Call the properties rather than the underlying values so that an error
-- 
2.43.0


From 7da11e5c07ddd70a45fd4171bc3ab73e2a6089a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:47 +0000
Subject: [PATCH 020/103] fix: creating a distributed dataset with a type
 conversion used the local shape as the global one

---
 caput/memdata/_memh5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 243fa67..89f8ec1 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -792,8 +792,10 @@ class MemGroup(_BaseGroup):
 
         # If data is set, copy out params from it.
         if data is not None:
-            if shape is None:
-                shape = data.shape
+            # The shape of a distributed array is only its local part
+            data_shape = getattr(data, "global_shape", data.shape)
+            if shape is None or shape == data.shape:
+                shape = data_shape
             if dtype is None:
                 dtype = data.dtype
 
@@ -824,7 +826,7 @@ class MemGroup(_BaseGroup):
         # If data is set (and consistent with shape/type), initialise the numpy array from it.
         if (
             data is not None
-            and shape == data.shape
+            and shape == data_shape
             and dtype is data.dtype
             and hasattr(data, "view")
         ):
-- 
2.43.0


From f3a113ea631338ccd0d4576fea90d0dc410eb512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:23 +0000
Subject: [PATCH 021/103] fix: tasks that take and return numpy arrays stop the
 pipeline

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 36d921f..555f849 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -1142,7 +1142,7 @@ class Task(config.Reader):
                 # Let the user know if there's a chance that data has been
                 # modified in-place
                 for opt in out if isinstance(out, tuple | list) else (out,):
-                    if opt in args:
+                    if any(opt is arg for arg in args):
                         logger.debug(
                             f"Task {self!s} may have modified dataset {opt!r} in-place. "
                             "If you encounter unexpected results, check that this is "
-- 
2.43.0


From a2edaa6e1231923ab30a2a1795d504a480993920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:23 +0000
Subject: [PATCH 022/103] fix: the pipeline's key_pattern setting is ignored

---
 caput/pipeline/_pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 555f849..f942fe8 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -148,6 +148,10 @@ class Manager(config.Reader):
         # Precompile the key pattern to skip
         self.key_match = re.compile(self.key_pattern)
 
+    def _finalise_config(self):
+        """Use the key pattern set in the configuration."""
+        self.key_match = re.compile(self.key_pattern)
+
     @classmethod
     def from_yaml_file(cls, file_name, lint=False, psutil_profiling=False):
         """Initialize the pipeline from a YAML configuration file.
-- 
2.43.0


From ad2497e9f74000e54f4dcccb9654453736348f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:23 +0000
Subject: [PATCH 023/103] fix: the Delete and MakeCopy tasks do nothing and
 drop their input

---
 caput/pipeline/tasklib/flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/flow.py b/caput/pipeline/tasklib/flow.py
index c0ea04d..3b15865 100644
--- a/caput/pipeline/tasklib/flow.py
+++ b/caput/pipeline/tasklib/flow.py
@@ -100,7 +100,7 @@ class GatherInputs(MPILoggedTask):
 class Delete(MPILoggedTask):
     """Delete pipeline products to free memory."""
 
-    def process(self, x):
+    def next(self, x):
         """Delete the input and collect garbage.
 
         Parameters
@@ -118,7 +118,7 @@ class Delete(MPILoggedTask):
 class MakeCopy(MPILoggedTask):
     """Make a copy of the passed object."""
 
-    def process(self, data):
+    def next(self, data):
         """Return a deep copy of the given object.
 
         Parameters
-- 
2.43.0


From fef5659365e41d06ae1f67fc184f14e9180be079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 024/103] fix: gather_local fails on a single process

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fc4521c..fb1934a 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -608,7 +608,7 @@ def gather_local(
 
     if comm is None or comm.size == 1:
         # only one process
-        slc = [slice(s, s + n) for (s, n) in zip(local_start, local_size)]
+        slc = tuple(slice(s, s + n) for (s, n) in zip(local_start, local_size))
         global_array[slc] = local_array.copy()
     else:
         local_sizes = comm.gather(local_size, root=root)
-- 
2.43.0


From 8e0859d9bb0c7bb68007a005cac2e503aaf82071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 025/103] fix: random partitions of a list overlap and miss
 items

---
 caput/util/arraytools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/util/arraytools.py b/caput/util/arraytools.py
index e048953..7adc073 100644
--- a/caput/util/arraytools.py
+++ b/caput/util/arraytools.py
@@ -93,7 +93,8 @@ def partition_list(full_list: list, i: int, n: int, method: str = "con") -> list
         return full_list[i::n]
 
     if method == "rand":
-        choices = np.random.permutation(N)[start:stop]
+        # Every piece (and process) has to be cut from the same permutation
+        choices = np.random.default_rng(N).permutation(N)[start:stop]
         return [full_list[i] for i in choices]
 
     raise ValueError(f"Unknown partition method {method}")
-- 
2.43.0


From 665a6a0f8a3976b1d7bfde725173aa664027db09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 026/103] fix: transpose_blocks refuses a shape given as a list
 on a single process

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fb1934a..edbad92 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -746,7 +746,7 @@ def transpose_blocks(
     """
     if comm is None or comm.size == 1:
         # only one process
-        if row_array.shape[:-1] == shape[:-1]:
+        if row_array.shape[:-1] == tuple(shape[:-1]):
             # We are working on a single node and being asked to do
             # a trivial transpose.
             # Note that to mimic the mpi behaviour we have to allow the
-- 
2.43.0


From 6fc2118ba6f0d1c093578d99266cfef32ea15159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 027/103] fix: parallel_rows_write_hdf5 writes over the start
 of the file

---
 caput/util/mpitools.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index edbad92..25e850a 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -926,16 +926,18 @@ def lock_and_write_buffer(obj: object, fname: str, offset: int, size: int) -> No
 
     buf = memoryview(obj)
 
-    if len(buf) > size:
+    if buf.nbytes > size:
         raise Exception("Size doesn't match array length.")
 
     fd = os.open(fname, os.O_RDWR | os.O_CREAT)
 
     fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)
 
+    os.lseek(fd, offset, os.SEEK_SET)
+
     nb = os.write(fd, buf)
 
-    if nb != len(buf):
+    if nb != buf.nbytes:
         raise Exception("Something funny happened with the reading.")
 
     fcntl.lockf(fd, fcntl.LOCK_UN)
@@ -957,6 +959,10 @@ def parallel_rows_write_hdf5(
 
     lr, sr, _ = split_local(shape[0], comm=comm)
 
-    nc = np.prod(shape[1:])
+    # Number of bytes in each row
+    nc = int(np.prod(shape[1:])) * local_data.dtype.itemsize
 
-    lock_and_write_buffer(local_data, fname, offset + sr * nc, lr * nc)
+    if lr * nc > 0:
+        lock_and_write_buffer(
+            np.ascontiguousarray(local_data), fname, offset + int(sr) * nc, int(lr) * nc
+        )
-- 
2.43.0


From 81b61c5c7145293dad32b0aeb81269aa6d908297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:05 +0000
Subject: [PATCH 028/103] fix: allocate_hdf5_dataset refuses a dataset name
 given as a str

---
 caput/util/mpitools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 25e850a..fd805ee 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -891,8 +891,9 @@ def allocate_hdf5_dataset(
         plist.set_alloc_time(h5py.h5d.ALLOC_TIME_EARLY)
         plist.set_fill_time(h5py.h5d.FILL_TIME_NEVER)
 
-        # Create the dataset
-        dset = h5py.h5d.create(f.id, dsetname, tp, sp, plist)
+        # Create the dataset (the low-level interface needs an encoded name)
+        name = dsetname.encode() if isinstance(dsetname, str) else dsetname
+        dset = h5py.h5d.create(f.id, name, tp, sp, plist)
 
         # Get the offset of the dataset into the file.
         state = dset.get_offset(), dset.get_storage_size()
-- 
2.43.0


From 3668603b370d6b1e918af4762065244da42c7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:50 +0000
Subject: [PATCH 029/103] fix: MultithreadedRNG leaves a non-contiguous out
 array unfilled and refuses out=None

---
 caput/algorithms/random.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index d73c831..0fdc98d 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -156,11 +156,15 @@ class MultithreadedRNG(np.random.Generator):
                 size = None
 
             # Try and get an out argument
-            if has_out and "out" in kwargs:
-                out = kwargs.pop("out")
+            out = kwargs.pop("out", None) if has_out else None
+
+            if out is not None:
+                # The threads fill slices of the flattened array in place, so any
+                # array which can't be flattened without a copy is left to numpy
+                if not out.flags.c_contiguous:
+                    return method(self, *orig_args, **orig_kwargs)
+
                 size = out.shape
-            else:
-                out = None
 
             # Try to figure out the dtype so we can pre-allocate the array for filling
             if has_dtype and len(args) > nparam + 1:
-- 
2.43.0


From 9abf9f8fb42208a8c9233ef626620f60107dafbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:50 +0000
Subject: [PATCH 030/103] fix: MultithreadedRNG silently drops positional out
 and endpoint arguments

---
 caput/algorithms/random.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 0fdc98d..d67ae73 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -174,6 +174,11 @@ class MultithreadedRNG(np.random.Generator):
             else:
                 dtype = defdtype
 
+            # Any further positional arguments (e.g. `out`, or `endpoint`) are not
+            # interpreted here, so this needs to be called directly
+            if len(args) > nparam + 1 + has_dtype:
+                return method(self, *orig_args, **orig_kwargs)
+
             # Trim any excess positional arguments
             args = args[:nparam]
 
-- 
2.43.0


From f7ce529d8beb526c57aed19e9ee3a0672b1acc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 031/103] fix: cpu_count divides by the number of nodes instead
 of the processes on this node

---
 caput/util/mpitools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fd805ee..bc09e4d 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -165,7 +165,7 @@ def cpu_count(
             scomm = comm.Split_type(MPI.COMM_TYPE_SHARED)
 
     try:
-        nproc_per_node = comm.size // scomm.size
+        nproc_per_node = scomm.size
     except AttributeError:
         # This would happend if the default comm is None
         nproc_per_node = 1
@@ -173,7 +173,7 @@ def cpu_count(
     cpu_count = os.cpu_count()
 
     if cpu_count is not None:
-        cpu_count = int(cpu_count // nproc_per_node)
+        cpu_count = max(1, cpu_count // nproc_per_node)
 
     return cpu_count
 
-- 
2.43.0


From 1a1d05357d4f480820a75363410bcabfcc32f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 032/103] fix: can_allocate leaves the other processes waiting
 if one cannot read its memory

---
 caput/util/mpitools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index bc09e4d..8b5af69 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -224,7 +224,9 @@ def can_allocate(
         # We probably don't want this to fail if it can't get the available
         # memory, but it should definitey warn about it
         warnings.warn(f"Unable to check available memory: {e!r}", RuntimeWarning)
-        return True
+        # Other processes might still be able to check, so this process needs to
+        # take part in the reductions below
+        available_memory_node = float(sys.maxsize)
 
     if scope == "shared" or comm is None or scomm is None:
         can_alloc = nbytes < available_memory_node
-- 
2.43.0


From c112580fe4ca9c817414adedb4d0d1608193e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 033/103] fix: redistribute hangs when only some processes are
 short of memory

---
 caput/mpiarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index f0a5fd0..dfd8213 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -766,7 +766,11 @@ class MPIArray(np.ndarray):
         # slightly more space than needed to be safe
         min_req_mem = int((1 + 4 / self.comm.size) * self.local_array.nbytes)
 
-        if not mpitools.can_allocate(min_req_mem, scope="process", comm=self.comm):
+        can_alloc = mpitools.can_allocate(min_req_mem, scope="process", comm=self.comm)
+
+        # The available memory can be different on each process, but they all have to
+        # either continue or stop here, otherwise some would wait for each other forever
+        if not all(self.comm.allgather(bool(can_alloc))):
             raise MemoryError(
                 f"Cannot allocate {min_req_mem} bytes required for redistribute."
             )
-- 
2.43.0


From fc2a3aa1f2e68eb5c398b1c335a507eeb6430bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:46 +0000
Subject: [PATCH 034/103] fix: MPI exception hook never aborts when flushing
 the output fails

---
 caput/util/mpitools.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 8b5af69..47cd250 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -327,13 +327,15 @@ def enable_mpi_exception_handler():
     def mpi_excepthook(exc_type, exc_obj, exc_tb):
         # Run the standard exception handler, but try to ensure the output is flushed
         # out before aborting
-        sys.__excepthook__(exc_type, exc_obj, exc_tb)
-        sys.stdout.flush()
-        sys.stderr.flush()
-        time.sleep(5)
-
-        # Send an MPI Abort to force other MPI ranks to exit
-        MPI.COMM_WORLD.Abort(1)
+        try:
+            sys.__excepthook__(exc_type, exc_obj, exc_tb)
+            sys.stdout.flush()
+            sys.stderr.flush()
+            time.sleep(5)
+        finally:
+            # Send an MPI Abort to force other MPI ranks to exit, even if the output
+            # could not be flushed (e.g. broken pipe or full disk)
+            MPI.COMM_WORLD.Abort(1)
 
     # Enable the faulthandler tracebacks as they are useful.
     import faulthandler
-- 
2.43.0


From f1df0d5e6aaaf33882f02291970b7f36d6ad1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:03 +0000
Subject: [PATCH 035/103] fix: concatenate leaves the time axis unset when the
 output is on disk

---
 caput/containers/tod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index dd2df28..b768b26 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -468,7 +468,8 @@ def concatenate(
                 current_concat_index_start[axis],
                 current_concat_index_n[axis],
             )
-            out.index_map[axis][out_slice] = (
+            # NOTE: `out.index_map` gives a copy if `out` is on disk
+            out._data["index_map"][axis][out_slice] = (
                 typeutils.ensure_unicode(data.index_map[axis][in_slice])
                 if convert_attribute_strings
                 else data.index_map[axis][in_slice]
-- 
2.43.0


From 7c2fcf316dd3682a61119b755b5f1fbc2a03e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:03 +0000
Subject: [PATCH 036/103] fix: concatenate returns undefined samples or fails
 when start or stop lie beyond the data

---
 caput/containers/tod.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index b768b26..f580087 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -720,17 +720,9 @@ def _dset_has_axis(entry: Any, axes: tuple[str]) -> bool:
 def _start_stop_inds(
     start: np.number | None, stop: np.number | None, ntime: np.number
 ) -> tuple[np.number, np.number]:
-    if start is None:
-        start = 0
-    elif start < 0:
-        start = ntime + start
-    if stop is None:
-        stop = ntime
-    elif stop < 0:
-        stop = ntime + stop
-    elif stop > ntime:
-        stop = ntime
-    return start, stop
+    # Resolve these as for any other slice, so anything beyond either end is clipped
+    start, stop, _ = slice(start, stop).indices(ntime)
+    return start, max(start, stop)
 
 
 def _get_in_out_slice(
-- 
2.43.0


From dc155b446b7ab10bac3d8bd2efa9d0d7b193ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:03 +0000
Subject: [PATCH 037/103] fix: concatenate overwrites the start and stop
 mappings of the caller

---
 caput/containers/tod.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index f580087..43f79a3 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -377,10 +377,15 @@ def concatenate(
     first_data = data_list[0]
     concatenation_axes = first_data.time_axes
 
-    # Ensure *start* and *stop* are mappings.
-    if not hasattr(start, "__getitem__"):
+    # Ensure *start* and *stop* are mappings. These get modified below, so they can't
+    # be the mappings owned by the caller
+    if hasattr(start, "__getitem__"):
+        start = dict(start)
+    else:
         start = dict.fromkeys(concatenation_axes, start)
-    if not hasattr(stop, "__getitem__"):
+    if hasattr(stop, "__getitem__"):
+        stop = dict(stop)
+    else:
         stop = dict.fromkeys(concatenation_axes, stop)
 
     # Get the length of all axes for which we are concatenating.
-- 
2.43.0


From 8017c928461d89688d070b049010145972611720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:03 +0000
Subject: [PATCH 038/103] fix: concatenate fails on sequences other than lists

---
 caput/containers/tod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 43f79a3..3fee906 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -656,7 +656,7 @@ def _copy_non_time_data(
     if to_dataset_names is None:
         to_dataset_names = []
 
-    if isinstance(data, list):
+    if isinstance(data, list | tuple):
         # XXX Do something more sophisticated here when/if we aren't getting
         # all our non-time dependant information from the first entry.
         data = data[0]
-- 
2.43.0


From 3f985fe4c2546354aacfa9faa9c62d8c7ce40ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:50 +0000
Subject: [PATCH 039/103] fix: array attributes of length one become scalars
 when saved to zarr

---
 caput/memdata/_memh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 89f8ec1..32d339e 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2415,6 +2415,10 @@ def copyattrs(a1, a2, convert_strings=False):
         ):
             # Save to JSON converting datetimes.
             encoder = Memh5JSONEncoder()
+            # The encoder turns arrays of length one into scalars, which must not happen
+            # to array attributes (e.g. the `axis` attribute of a 1D dataset)
+            if isinstance(value, np.ndarray):
+                value = value.tolist()
             value = json_prefix + encoder.encode(value)
         elif isinstance(value, str) and value.startswith(json_prefix):
             # Read from JSON, keep serialised datetimes as strings
-- 
2.43.0


From 079e7901e92590957c7f021ee2375fcb9619a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:50 +0000
Subject: [PATCH 040/103] fix: attribute dictionaries holding numpy numbers
 cannot be saved

---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 32d339e..7446353 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2394,7 +2394,7 @@ def copyattrs(a1, a2, convert_strings=False):
                 if isinstance(o, datetime.datetime):
                     return o.isoformat()
                 if isinstance(o, np.number):
-                    return o.data
+                    return o.item()
                 if isinstance(o, np.ndarray):
                     if len(o) == 1:
                         return o.tolist()[0]
-- 
2.43.0


From 3a795d607f3424eccd9518c83ac54bbf15f059df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:49 +0000
Subject: [PATCH 041/103] fix: concatenating zarr files on disk drops all but
 the first one

---
 caput/containers/tod.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 3fee906..74e42ea 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -492,7 +492,7 @@ def concatenate(
             attrs = dataset.attrs
 
             # Figure out which axis we are concatenating over.
-            for a in typeutils.bytes_to_unicode(attrs["axis"]):
+            for a in _get_axes(attrs):
                 if a in concatenation_axes:
                     axis = a
                     break
@@ -526,7 +526,7 @@ def concatenate(
                 attrs = dataset.attrs
 
             # Do this *after* the filter, in case filter changed axis order.
-            axis_ind = list(typeutils.bytes_to_unicode(attrs["axis"])).index(axis)
+            axis_ind = _get_axes(attrs).index(axis)
 
             # Slice input data if the filter doesn't do it.
             if not filter_time_slice:
@@ -714,11 +714,18 @@ def _dset_has_axis(entry: Any, axes: tuple[str]) -> bool:
     if memdata.is_group(entry):
         return False
 
-    # Assume is a dataset. We need to ensure the output strings are Unicode as h5py may
-    # return them as byte strings if the input is an h5py.Dataset
-    dset_axes = typeutils.bytes_to_unicode(entry.attrs.get("axis", ()))
+    # Assume is a dataset.
+    return len(set(_get_axes(entry.attrs)).intersection(axes)) > 0
 
-    return len(set(dset_axes).intersection(axes)) > 0
+
+def _get_axes(attrs: Any) -> list[str]:
+    """Get the axis names from the attributes of a dataset."""
+    # The attributes need to be converted if the dataset is on disk. h5py may return
+    # them as byte strings and they are serialised in zarr files.
+    attrs_dict = {}
+    memdata.copyattrs(attrs, attrs_dict, convert_strings=True)
+
+    return list(attrs_dict.get("axis", ()))
 
 
 # XXX andata still calls these.
-- 
2.43.0


From 1ac39c8f00c008c2af8ee3ed75c5b18c870f88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:58 +0000
Subject: [PATCH 042/103] fix: filtering datasets fails for index arrays and
 empty selections

---
 caput/containers/_util.py | 7 ++++---
 caput/mpiarray.py         | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 18560c8..6c10152 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -95,10 +95,11 @@ def copy_datasets_filter(
     for ax in list(selection):
         sel = selection[ax]
         # Remove any unnecessary slices
-        if sel == slice(None):
-            del selection[ax]
+        if isinstance(sel, slice):
+            if sel == slice(None):
+                del selection[ax]
         # Convert any indexed selections to slices where possible
-        elif type(sel) in {list, tuple, np.ndarray}:
+        elif type(sel) in {list, tuple, np.ndarray} and len(sel) > 0:
             if list(sel) == list(range(sel[0], sel[-1])):
                 selection[ax] = slice(sel[0], sel[-1])
 
diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index dfd8213..f01ad72 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2263,8 +2263,8 @@ def _apply_sel(
         sel = (slice(None),) * ax + (sel,)
         return arr[sel]
 
-    if type(sel) in {list, tuple}:
-        return np.take(arr, sel, axis=ax)
+    if type(sel) in {list, tuple, np.ndarray}:
+        return np.take(arr, np.asarray(sel, dtype=np.intp), axis=ax)
 
     raise ValueError(
         "Invalid selection type. Selection must be one of (slice, tuple, list). "
-- 
2.43.0


From a89df765aaacc89d02d90ecb2ee3d0c8c9300aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:58 +0000
Subject: [PATCH 043/103] fix: filtering datasets modifies the caller's
 selection

---
 caput/containers/_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 6c10152..6cfaff6 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -91,7 +91,8 @@ def copy_datasets_filter(
             f"but selections for {list(selection.keys())}."
         )
 
-    # Try to clean up selections
+    # Try to clean up selections. The original belongs to the caller
+    selection = dict(selection)
     for ax in list(selection):
         sel = selection[ax]
         # Remove any unnecessary slices
-- 
2.43.0


From 6640cb21779682e0724992289fee2535f0c3d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:58 +0000
Subject: [PATCH 044/103] fix: filtering datasets leaves the source distributed
 over another axis

---
 caput/containers/_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 6cfaff6..36d5082 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -171,6 +171,10 @@ def copy_datasets_filter(
 
         dest_dset[:] = arr[:]
 
+        # The source is left distributed as it was
+        if isinstance(item, _memh5.MemDatasetDistributed):
+            item.redistribute(original_ax_id)
+
         # also copy attritutes
         _memh5.copyattrs(item.attrs, dest_dset.attrs)
 
-- 
2.43.0


From a8662af87c3bab844452a28a5c669c93fefbc7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:09 +0000
Subject: [PATCH 045/103] fix: filtering a common dataset into a distributed
 one fails

---
 caput/containers/_util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 36d5082..718e30c 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -169,6 +169,13 @@ def copy_datasets_filter(
                 continue
             arr = _apply_sel(arr, sel, ax_ind)
 
+        # A common dataset is whole on every rank, keep only the part that is local here
+        if isinstance(dest_dset, _memh5.MemDatasetDistributed) and not isinstance(
+            item, _memh5.MemDatasetDistributed
+        ):
+            original_ax_id = dest_dset.distributed_axis
+            arr = _apply_sel(arr, dest_dset[:].local_bounds, original_ax_id)
+
         dest_dset[:] = arr[:]
 
         # The source is left distributed as it was
-- 
2.43.0


From b711e9a63c9f54c6d0c8a7acd9c3df14ef048fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:42 +0000
Subject: [PATCH 046/103] fix: redistributing a container over an out of range
 negative axis

---
 caput/containers/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 07b8ed9..d411cbc 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -251,7 +251,7 @@ class Container(memdata.MemDiskGroup):
                             axis = naxis + axis
 
                     # Check axis is within bounds
-                    if axis >= naxis:
+                    if not 0 <= axis < naxis:
                         continue
 
                     # Excellent, found a matching axis, time to redistribute
-- 
2.43.0


From 3c2abb9464c254f1aaea5c0a86468a5040772cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:42 +0000
Subject: [PATCH 047/103] fix: copying datasets from a container distributed
 over another axis

---
 caput/containers/_core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index d411cbc..8d4d17c 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -441,6 +441,12 @@ class ContainerPrototype(Container):
                 if name not in self:
                     self.add_dataset(name)
 
+                # The local parts only correspond if both are distributed alike
+                if isinstance(source_dset, memdata.MemDatasetDistributed) and (
+                    isinstance(self[name], memdata.MemDatasetDistributed)
+                ):
+                    self[name].redistribute(source_dset.distributed_axis)
+
                 self[name][:] = source_dset[:]
 
         # Copy over attributes
-- 
2.43.0


From 34728fc75f923bf465af30f24da5cf09e36e3f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:44 +0000
Subject: [PATCH 048/103] fix: copies of table containers do not know their
 tables

---
 caput/containers/_core.py | 53 +++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 8d4d17c..ca25ef0 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -760,41 +760,47 @@ class TableSpec(ContainerPrototype):
 
     _table_spec: ClassVar[dict[str, dict]] = {}
 
-    def __init__(self, *args: tuple, **kwargs: dict):
-        # Get the dataset specifiction for this class (not any base classes), or
-        # an empty dictionary if it does not exist. Do the same for the axes entry..
-        dspec = self.__class__.__dict__.get("_dataset_spec", {})
-        axes = self.__class__.__dict__.get("_axes", ())
-
-        # Iterate over all table_spec entries and construct dataset specifications for
-        # them.
-        for name, spec in self.table_spec.items():
+    @classmethod
+    def _table_dataset_spec(cls) -> dict[str, dict]:
+        """Construct the dataset specifications of all the tables."""
+        dspec = {}
+
+        for name, spec in cls._class_table_spec().items():
             # Get the specifieid axis or if not present create a unique one for
             # this table entry
             axis = spec.get("axis", name + "_index")
 
-            dtype = self._create_dtype(spec["columns"])
-
-            _dataset = {
+            dspec[name] = {
                 "axes": [axis],
-                "dtype": dtype,
+                "dtype": cls._create_dtype(spec["columns"]),
                 "initialise": spec.get("initialise", True),
                 "distributed": spec.get("distributed", False),
                 "distributed_axis": axis,
             }
 
-            dspec[name] = _dataset
+        return dspec
 
-            if axis not in axes:
-                axes += (axis,)
+    @classmethod
+    def _class_dataset_spec(cls) -> dict[str, dict]:
+        """Get the inherited set of dataset spec entries, including the tables."""
+        ddict = super()._class_dataset_spec() | cls._table_dataset_spec()
 
-        self._dataset_spec = dspec
-        self._axes = axes
+        # Ensure that the dataset_spec is the same order on all ranks
+        return {k: ddict[k] for k in sorted(ddict)}
 
-        super().__init__(*args, **kwargs)
+    @classmethod
+    def _class_axes(cls) -> tuple[str, ...]:
+        """Get the set of axes of the container, including those of the tables."""
+        axes = set(super()._class_axes())
+
+        for spec in cls._table_dataset_spec().values():
+            axes |= set(spec["axes"])
+
+        return tuple(sorted(axes))
 
+    @classmethod
     def _create_dtype(
-        self, columns: dict[str, npt.DTypeLike]
+        cls, columns: dict[str, npt.DTypeLike]
     ) -> list[tuple[str, np.dtype]]:
         """Take a dictionary of columns and turn into the appropriate compound data type."""
         dt = []
@@ -808,11 +814,14 @@ class TableSpec(ContainerPrototype):
     @property
     def table_spec(self) -> dict[str, dict]:
         """Return a copy of the fully resolved table specifiction as a dictionary."""
-        import inspect
+        return self._class_table_spec()
 
+    @classmethod
+    def _class_table_spec(cls) -> dict[str, dict]:
+        """Get the inherited set of table spec entries."""
         tdict = {}
 
-        for cls in inspect.getmro(self.__class__)[::-1]:
+        for cls in inspect.getmro(cls)[::-1]:
             try:
                 tdict.update(cls._table_spec)
             except AttributeError:
-- 
2.43.0


From 976133a92d07d49267a98b901dab6f7b2f88803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:46 +0000
Subject: [PATCH 049/103] fix: data loaded with a selection cannot be saved if
 chunked

---
 caput/memdata/_memh5.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 7446353..034a409 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2593,7 +2593,7 @@ def deep_group_copy(
 
         return dset_args
 
-    def _prepare_compression_args(dset: DatasetLike) -> dict:
+    def _prepare_compression_args(dset: DatasetLike, shape: tuple[int, ...]) -> dict:
         """Get compression options and chunking for this dataset.
 
         Returns: dict(compression, compression_opts, chunks)
@@ -2613,7 +2613,15 @@ def deep_group_copy(
             compression_kwargs = fileformats.HDF5.compression_kwargs(
                 compression=compression, compression_opts=compression_opts
             )
-        compression_kwargs["chunks"] = getattr(dset, "chunks", None)
+        chunks = getattr(dset, "chunks", None)
+        # Chunks may not be larger than the selected data
+        if (
+            chunks is not None
+            and all(shape)
+            and not isinstance(dset, MemDatasetDistributed)
+        ):
+            chunks = tuple(map(min, zip(chunks, shape)))
+        compression_kwargs["chunks"] = chunks
 
         return compression_kwargs
 
@@ -2673,7 +2681,7 @@ def deep_group_copy(
             # Copy over this dataset. `_prepare_dataset` will make
             # a deep copy of the dataset
             dset_args = _prepare_dataset(entry)
-            compression_kwargs = _prepare_compression_args(entry)
+            compression_kwargs = _prepare_compression_args(entry, dset_args["shape"])
 
             g2.create_dataset(
                 key,
-- 
2.43.0


From 9c519b13d9154ff5a927e5ef93708e7d5d96c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 050/103] fix: a file format cannot be given by name

---
 caput/pipeline/extensions/_configtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/extensions/_configtypes.py b/caput/pipeline/extensions/_configtypes.py
index c82a5bf..f25ff54 100644
--- a/caput/pipeline/extensions/_configtypes.py
+++ b/caput/pipeline/extensions/_configtypes.py
@@ -45,7 +45,7 @@ def file_format(default=None):
         if val is None:
             return None
 
-        if issubclass(val, fileformats.FileFormat):
+        if isinstance(val, type) and issubclass(val, fileformats.FileFormat):
             return val
 
         if not isinstance(val, str):
-- 
2.43.0


From 0e17a4694968b66c15141c089e5830a68b362073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 051/103] fix: outputs of untagged inputs are all given the
 same tag

---
 caput/pipeline/tasklib/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 9af355f..94365f0 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -350,7 +350,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
 
         # Extract a list of the tags for all input arguments
         input_tags = [
-            (str(icont.attrs.get("tag")) if isinstance(icont, MemDiskGroup) else "")
+            (str(icont.attrs.get("tag", "")) if isinstance(icont, MemDiskGroup) else "")
             for icont in input
         ]
 
@@ -558,7 +558,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
         idict = dict(output.attrs)
         if "tag" in output.attrs:
             tag = output.attrs["tag"]
-        elif "input_tags" in output.attrs and len(output.attrs["input_tags"]):
+        elif len(output.attrs.get("input_tags", ())) and output.attrs["input_tags"][0]:
             tag = output.attrs["input_tags"][0]
         else:
             tag = self._count
-- 
2.43.0


From 1ff6107afe7f5406c6cc773950de456ffc58c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:13 +0000
Subject: [PATCH 052/103] fix: gzip compression without options cannot be
 written to zarr

---
 caput/memdata/fileformats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/fileformats.py b/caput/memdata/fileformats.py
index 4e762ec..8db69e7 100644
--- a/caput/memdata/fileformats.py
+++ b/caput/memdata/fileformats.py
@@ -307,7 +307,8 @@ class Zarr(FileFormat):
                 )
 
             if compression == "gzip":
-                return {"compressor": numcodecs.gzip.GZip(level=compression_opts)}
+                level = {} if compression_opts is None else {"level": compression_opts}
+                return {"compressor": numcodecs.gzip.GZip(**level)}
 
             if compression in (H5FILTER, str(H5FILTER), "bitshuffle"):
                 try:
-- 
2.43.0


From 8a76913ccb31adf9964003bba4dd8e1e687333b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:40 +0000
Subject: [PATCH 053/103] fix: container tasks fail when the configuration is
 not saved

---
 caput/pipeline/tasklib/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 94365f0..1d42b4b 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -305,7 +305,9 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
 
     # Metadata to get attached to the output
     versions = config.Property(default={}, proptype=dict)
-    pipeline_config = config.Property(default={}, proptype=dict)
+    pipeline_config = config.Property(
+        default={}, proptype=lambda x: {} if x is None else dict(x)
+    )
 
     tag = config.Property(proptype=str, default="{tag}")
     attrs = config.Property(proptype=dict, default=None)
-- 
2.43.0


From 9aac050088c032df3f9d2d6f22c920e47068de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:23 +0000
Subject: [PATCH 054/103] fix: zipped items without a tag overwrite each other

---
 caput/pipeline/tasklib/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 16a6995..0cc4914 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1020,8 +1020,9 @@ class SaveZarrZip(ZipZarrContainers):
                 command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
             )
 
-        # Increment the global operations counter
+        # Increment the global operations counter and the number of items saved
         self.__class__._operation_counter += 1
+        self._count += 1
 
         return ZarrZipHandle(dest_file, bg_process)
 
-- 
2.43.0


From 10490c06a10ac052930c1b610396b6bcfb8e4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:23 +0000
Subject: [PATCH 055/103] fix: zipping files whose name has a space or another
 special character

---
 caput/pipeline/tasklib/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 0cc4914..9ed06e7 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -29,6 +29,7 @@ These are specified in the YAML file as a dictionary like below.
 from __future__ import annotations
 
 import os
+import shlex
 import shutil
 import subprocess
 from functools import partial
@@ -1009,12 +1010,14 @@ class SaveZarrZip(ZipZarrContainers):
             # Run 7z to zip up the file
             dest_file = outfile + ".zip"
             src_dir = outfile + "/."
-            command = f"{self._path_7z} a -tzip -mx=0 {dest_file} {src_dir}"
+            command = shlex.join(
+                [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]
+            )
 
             # If we are to remove the file get the background job to do it immediately
             # after zipping succeeds
             if self.remove:
-                command += f" && rm -r {outfile}"
+                command += f" && rm -r {shlex.quote(outfile)}"
 
             bg_process = subprocess.Popen(
                 command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
-- 
2.43.0


From b9188b1e17b2ec56ab2204ec7a34acfad1d1600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:23 +0000
Subject: [PATCH 056/103] fix: waiting for a zip job with a lot of output never
 ends

---
 caput/pipeline/tasklib/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 9ed06e7..bdac56a 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1054,12 +1054,14 @@ class WaitZarrZip(MPILoggedTask):
             self.log.debug(f"Waiting on job processing {h.filename}")
 
             if h.handle is not None:
-                returncode = h.handle.wait()
+                # Read the output while waiting as the job stops if the pipes fill up
+                stdout, stderr = h.handle.communicate()
+                returncode = h.handle.returncode
 
                 if returncode != 0 or not os.path.exists(h.filename):
                     self.log.debug("Error occurred while zipping. Debug logs follow...")
-                    self.log.debug(f"stdout={h.handle.stdout}")
-                    self.log.debug(f"stderr={h.handle.stderr}")
+                    self.log.debug(f"stdout={stdout}")
+                    self.log.debug(f"stderr={stderr}")
                     raise RuntimeError(f"Error occurred while zipping {h.filename}.")
 
             self.comm.Barrier()
-- 
2.43.0


From 896b4656ca5864249b06f2edafb8ea3a96253683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:23 +0000
Subject: [PATCH 057/103] fix: waiting for zip jobs when there were none

---
 caput/pipeline/tasklib/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index bdac56a..1132f2f 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1050,7 +1050,7 @@ class WaitZarrZip(MPILoggedTask):
 
     def finish(self):
         """Wait for all Zarr zipping jobs to complete."""
-        for h in self._handles:
+        for h in self._handles or ():
             self.log.debug(f"Waiting on job processing {h.filename}")
 
             if h.handle is not None:
-- 
2.43.0


From 3df3ed26bc13e55d2cbf0a27d64d4d7ffe8637f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:05 +0000
Subject: [PATCH 058/103] fix: the Save task cannot be used

---
 caput/pipeline/tasklib/io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 1132f2f..ecd5827 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -596,10 +596,10 @@ class LoadFiles(LoadFilesFromParams):
         self.files = files
 
 
-class Save(ContainerTask):
+class Save(MPILoggedTask):
     """Save out the input, and pass it on.
 
-    Assumes that the input has a :py:meth:`to_hdf5` method. Appends a *tag* if there is
+    Assumes that the input is a container or has a :py:meth:`to_hdf5` method. Appends a *tag* if there is
     a `tag` entry in the attributes, otherwise just appends a count.
 
     Attributes
@@ -630,7 +630,10 @@ class Save(ContainerTask):
 
         fname = f"{self.root}_{tag!s}.h5"
 
-        data.to_hdf5(fname)
+        if isinstance(data, MemDiskGroup):
+            data.save(fname)
+        else:
+            data.to_hdf5(fname)
 
         return data
 
-- 
2.43.0


From 7bdbdc3461a13733e867890c0ff442a329965bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:05 +0000
Subject: [PATCH 059/103] fix: lists of files depend on the directory order and
 are not flat

---
 caput/pipeline/tasklib/io.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index ecd5827..1bea17a 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -66,21 +66,12 @@ def list_of_filelists(files):
     flattened_list : list[PathLike]
         The input file list. Any glob patterns will be flattened to file path string lists.
     """
-    import glob
-
     f2 = []
 
     for filelist in files:
-        if isinstance(filelist, str):
-            if "*" not in filelist and not os.path.isfile(filelist):
-                raise config.CaputConfigError(f"File not found: {filelist!s}")
-            filelist = glob.glob(filelist)
-        elif isinstance(filelist, list):
-            for i in range(len(filelist)):
-                filelist[i] = list_or_glob(filelist[i])
-        else:
+        if not isinstance(filelist, str | list):
             raise config.CaputConfigError("Must be list or glob pattern.")
-        f2 = f2 + filelist
+        f2 = f2 + list_or_glob(filelist)
 
     return f2
 
-- 
2.43.0


From 43df74bf791d808b21c386dda53c6192d7f13525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:05 +0000
Subject: [PATCH 060/103] fix: groups of files depend on the directory order
 and on the kind of pattern

---
 caput/pipeline/tasklib/io.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 1bea17a..06948c5 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -146,8 +146,6 @@ def list_of_filegroups(groups):
     :py:exc:`~caput.config.CaputConfigError`
         If `groups` has the wrong format.
     """
-    import glob
-
     # Convert to list if the group was not included in a list
     if not isinstance(groups, list):
         groups = [groups]
@@ -167,12 +165,7 @@ def list_of_filegroups(groups):
         if "tag" not in group:
             group["tag"] = f"group_{gi:d}"
 
-        flist = []
-
-        for fname in files:
-            if "*" not in fname and not os.path.isfile(fname):
-                raise config.CaputConfigError(f"File not found: {fname!s}")
-            flist += glob.glob(fname)
+        flist = list_or_glob(files)
 
         if not len(flist):
             raise config.CaputConfigError(f"No files in group exist ({files!s}).")
-- 
2.43.0


From dfbf0ec3de29356b9a26591914c3cece39c253a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:05 +0000
Subject: [PATCH 061/103] fix: files of an unknown container class cannot be
 read

---
 caput/memdata/_memh5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 034a409..437ced2 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1718,6 +1718,7 @@ class MemDiskGroup(_BaseGroup):
             new_cls = importtools.import_class(clspath)
         except (ImportError, KeyError):
             warnings.warn(f"Could not import memh5 subclass {clspath}")
+            return cls
 
         # Check that it is a subclass of MemDiskGroup
         if not issubclass(new_cls, MemDiskGroup):
-- 
2.43.0


From 2617ee9a186002f2dbabf0efd8649d0d4874fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 062/103] fix: an unknown queue system is not named in the
 error

---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 083f55e..f73bf6d 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -305,7 +305,7 @@ def _resolve_system_config(conf: dict) -> dict:
             )
         else:
             raise ValueError(
-                f"Specified system `{system}`: is not known. "
+                f"Specified system `{sysname}`: is not known. "
                 f"Known systems are: {list(REGISTERED_SYSTEMS.keys())} "
                 f"and known clusters are: {list(REGISTERED_CLUSTERS.keys())}"
             )
-- 
2.43.0


From c9fbfe36bd86409cba9ede259c66d17255c74c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 063/103] fix: a refused submission is not reported

---
 caput/pipeline/runner/_scheduler/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index f73bf6d..7847384 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -274,6 +274,7 @@ def queue(
             [system_config["command"], *extra_options, "jobscript.sh"],
             cwd=directories["jobdir"],
             env=os.environ,
+            check=True,
         )
 
 
-- 
2.43.0


From 3a690bb8cb66199c18efe997e05207713feaef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 064/103] fix: PBS jobs cannot be queued

---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 7c98664..07a5626 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -78,14 +78,16 @@ function setCrashed {{
 
 trap setCrashed ERR
 
-{module:s}
+echo RUNNING > {statuspath:s}
+
+{modules:s}
 
 source {venv:s}
 
 cd {workdir:s}
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
 
 # Set the status
 echo FINISHED > {statuspath:s}
-- 
2.43.0


From 3a09ee5bbd9aab710da4788d8f5c170ae52b6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 065/103] fix: the default arguments of the run command are
 ignored

---
 caput/pipeline/runner/_scheduler/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 7847384..ea246db 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -435,9 +435,9 @@ def _resolve_job_script(conf: dict, directories: dict) -> str:
         conf["invoke"] = REGISTERED_SYSTEMS[system].get("invoke", "mpirun")
 
     if "invoke_args" not in conf:
-        # Nothing here, but still need an empty string to
-        # satisfy the script template
-        conf["invoke_args"] = ""
+        # There might be nothing here, but still need an empty
+        # string to satisfy the script template
+        conf["invoke_args"] = REGISTERED_SYSTEMS[system].get("invoke_args", "")
 
     # Path does not support type specifiers, so convert all `Path`
     # objects to strings
-- 
2.43.0


From 73c5f81980807751f7f4790a61073da2eb16d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 066/103] fix: jobs in directories with spaces in their names
 crash

---
 .../runner/_scheduler/_default_systems.toml   | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 07a5626..268ebbf 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -17,18 +17,18 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
-echo RUNNING > {statuspath:s}
+echo RUNNING > \"{statuspath:s}\"
 
 {modules:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 
 # Try to keep threads together - this is usually more optimal
@@ -36,15 +36,15 @@ export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 export OMP_PROC_BIND=close
 export OMP_PLACES=cores
 
-{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
@@ -73,29 +73,29 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
-echo RUNNING > {statuspath:s}
+echo RUNNING > \"{statuspath:s}\"
 
 {modules:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
-- 
2.43.0


From b8277fb7f02b2bf54883ecd96722e5beb77f74c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 067/103] fix: the default profiler of queued jobs does not
 exist

---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index ea246db..3e9bb32 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -112,7 +112,7 @@ def queue(
     submit: bool = False,
     lint: bool = True,
     profile: bool = False,
-    profiler: str | None = "cProfiler",
+    profiler: str | None = "cprofile",
     psutil: bool = False,
     overwrite: Literal["never", "failed"] = "never",
     email: str | None = None,
-- 
2.43.0


From 1963f258d14458b2469d9ea1dfee0a254f5b4a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 068/103] fix: packages of a virtual environment are not found
 when linting

---
 caput/pipeline/runner/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 88541d6..c5b1376 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -182,7 +182,7 @@ def _load_venv(configfile: os.PathLike) -> None:
         logger.warning(f"Path defined in 'cluster'/'venv' doesn't exist ({base})")
         sys.exit(1)
 
-    site_packages = base / "lib" / f"python{sys.version[:3]}" / "site-packages"
+    site_packages = base / "lib" / f"python{sys.version_info.major}.{sys.version_info.minor}" / "site-packages"
     prev_sys_path = list(sys.path)
 
     site.addsitedir(site_packages)
-- 
2.43.0


From 61dbdf27c9375239401dda1d151999f30a3b4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 069/103] fix: templates cannot be run without submitting them

---
 caput/pipeline/runner/_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index c5b1376..29e8be4 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -43,10 +43,10 @@ def lint_config(configfile: os.PathLike | tuple[os.PathLike, ...]) -> None:
 
 def run_pipeline(
     configfile: os.PathLike,
-    profile: bool,
-    profiler: Literal["cprofile", "pyinstrument"],
-    mpi_abort: bool,
-    psutil: bool,
+    profile: bool = False,
+    profiler: Literal["cprofile", "pyinstrument"] = "cprofile",
+    mpi_abort: bool = True,
+    psutil: bool = False,
 ) -> None:
     """Run a pipeline immediately from the given `configfile`.
 
-- 
2.43.0


From 9537e7cc0379f8616a5af6e01edb1b28048798f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 070/103] fix: a job whose output was moved to its final
 directory is submitted again

---
 caput/pipeline/runner/_scheduler/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 3e9bb32..733faa0 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -349,7 +349,11 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
     jobdir = workdir / "job/"
     statusfile = jobdir / "STATUS"
 
-    if jobdir.exists():
+    # A finished job will have been moved to the final directory
+    if not jobdir.exists() and (finaldir / "job/").exists():
+        statusfile = finaldir / "job/" / "STATUS"
+
+    if statusfile.parent.exists():
         if overwrite == "never":
             logger.info(f"Job already exists at {workdir}. Skipping.")
             return None
@@ -362,7 +366,8 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
                         f"Successful job already exists at {workdir}. Skipping."
                     )
                     return None
-    else:
+
+    if not jobdir.exists():
         jobdir.mkdir(parents=True)
 
     directories["jobdir"] = jobdir
-- 
2.43.0


From 6e60dea6b7c18562cfccbea9dbca4046db9492b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 071/103] fix: a job that could not be queued is mistaken for
 an existing one

---
 caput/pipeline/runner/_scheduler/__init__.py | 43 +++++++++++---------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 733faa0..a2694ae 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -219,19 +219,12 @@ def queue(
     system = resolved_config["system"]
     system_config = REGISTERED_SYSTEMS[system]
 
-    directories = _create_job_directories(resolved_config, overwrite)
+    directories = _resolve_job_directories(resolved_config, overwrite)
 
     if not directories:
         # The job already exists and we are not overwriting
         return
 
-    # Copy the config file to the job directory
-    sfile = _fix_path(configfile)
-    dfile = _fix_path(directories["jobdir"] / "config.yaml")
-
-    if sfile != dfile:
-        shutil.copyfile(sfile, dfile)
-
     # Forward profiler configuration
     resolved_config["profile"] = "--profile" if profile else ""
     resolved_config["profiler"] = f"--profiler={profiler}" if profile else ""
@@ -240,10 +233,6 @@ def queue(
     # Resolve the cluster job script based on the configuration
     jobscript = _resolve_job_script(resolved_config, directories)
 
-    # Write the job script to the job directory
-    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
-        f.write(jobscript)
-
     # Resolve mail options, if available for the queue system
     extra_options = []
 
@@ -266,13 +255,30 @@ def queue(
                 mail_config["options"].format(email=email, mailtype=mailtype).split()
             )
 
+    # Nothing is created until everything has been resolved, so that a job
+    # which could not be queued isn't mistaken for an existing one
+    jobdir = directories["jobdir"]
+
+    jobdir.mkdir(parents=True, exist_ok=overwrite != "never")
+
+    # Copy the config file to the job directory
+    sfile = _fix_path(configfile)
+    dfile = _fix_path(jobdir / "config.yaml")
+
+    if sfile != dfile:
+        shutil.copyfile(sfile, dfile)
+
+    # Write the job script to the job directory
+    with open(jobdir / "jobscript.sh", "w") as f:
+        f.write(jobscript)
+
     if submit:
         # NOTE: explicitly set the environment to what Python thinks it should
         # be. This is because mpi4py will incorrectly modify the environment
         # using lowlevel calls which Python cannot detect.
         subprocess.run(
             [system_config["command"], *extra_options, "jobscript.sh"],
-            cwd=directories["jobdir"],
+            cwd=jobdir,
             env=os.environ,
             check=True,
         )
@@ -325,8 +331,11 @@ def _resolve_system_config(conf: dict) -> dict:
     return cluster_conf
 
 
-def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
-    """Create job directories based on a configuration dictionary."""
+def _resolve_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
+    """Find job directories based on a configuration dictionary.
+
+    Returns None if the job exists and should not be overwritten.
+    """
     directories = {}
 
     # If no temporary directory set, just use the final directory
@@ -345,7 +354,6 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
     if not finaldir.is_absolute():
         raise ValueError(f"Final output directory path {finaldir} must be absolute")
 
-    # Create temporary directory if required
     jobdir = workdir / "job/"
     statusfile = jobdir / "STATUS"
 
@@ -367,9 +375,6 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
                     )
                     return None
 
-    if not jobdir.exists():
-        jobdir.mkdir(parents=True)
-
     directories["jobdir"] = jobdir
     directories["workdir"] = workdir
     directories["finaldir"] = finaldir
-- 
2.43.0


From 86cbb384796a72f81681542014821e1ca1fdaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 072/103] fix: the status of a previous job is taken for that
 of the new one

---
 caput/pipeline/runner/_scheduler/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index a2694ae..cb72dad 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -261,6 +261,9 @@ def queue(
 
     jobdir.mkdir(parents=True, exist_ok=overwrite != "never")
 
+    # The status of a previous job doesn't apply to this one
+    (jobdir / "STATUS").unlink(missing_ok=True)
+
     # Copy the config file to the job directory
     sfile = _fix_path(configfile)
     dfile = _fix_path(jobdir / "config.yaml")
-- 
2.43.0


From f6f4019c9a5127f23bbab984af1283d932c2e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:50 +0000
Subject: [PATCH 073/103] fix: PSUtilProfiler does not accept a path

---
 caput/util/profiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/profiler.py b/caput/util/profiler.py
index c87e70c..dd62e20 100644
--- a/caput/util/profiler.py
+++ b/caput/util/profiler.py
@@ -235,11 +235,11 @@ class PSUtilProfiler(psutil.Process):
         if path is None:
             self.path = Path.cwd()
         else:
-            if not self.path.is_dir() or not self.path.exists():
+            self.path = Path(path)
+            if not self.path.is_dir():
                 raise ValueError(
                     f"Make sure {self.path} passed to PSUtillProfiler is a directory that exists."
                 )
-            self.path = Path(path)
 
         self.path = self.path / f"perf_{rank}.csv"
 
-- 
2.43.0


From d1abbfa8fb1744a93a04e34c32c1ff57543f424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:50 +0000
Subject: [PATCH 074/103] fix: Profiler ignores the path it is given

---
 caput/util/profiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/profiler.py b/caput/util/profiler.py
index dd62e20..3dd81d6 100644
--- a/caput/util/profiler.py
+++ b/caput/util/profiler.py
@@ -92,11 +92,11 @@ class Profiler:
 
         if self.profiler == "cprofile":
             self._pr.disable()
-            self._pr.dump_stats(f"profile_{rank:0{rank_length}}.prof")
+            self._pr.dump_stats(self.path / f"profile_{rank:0{rank_length}}.prof")
 
         elif self.profiler == "pyinstrument":
             self._pr.stop()
-            with open(f"profile_{rank:0{rank_length}}.txt", "w") as fh:
+            with open(self.path / f"profile_{rank:0{rank_length}}.txt", "w") as fh:
                 fh.write(self._pr.output_text(unicode=True))
 
 
-- 
2.43.0


From 4fe3383ef5df466b43740d2313f7d3705c12daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:50 +0000
Subject: [PATCH 075/103] fix: the time spent stopping the profiler is counted
 as the profiled code's

---
 caput/util/profiler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/caput/util/profiler.py b/caput/util/profiler.py
index 3dd81d6..80b6002 100644
--- a/caput/util/profiler.py
+++ b/caput/util/profiler.py
@@ -306,7 +306,7 @@ class PSUtilProfiler(psutil.Process):
 
         Results generated when `stop` is called are based on this start time.
         """
-        self._start_time = time.time()
+        self._start_time = time.monotonic()
 
         # Get all stats at the same time
         with self.oneshot():
@@ -318,8 +318,8 @@ class PSUtilProfiler(psutil.Process):
             else:
                 self._start_disk_io = self.io_counters()
 
+        # Set when the monitoring process should stop
         self._thread_flag = threading.Event()
-        self._thread_flag.set()
 
         self._peak_memory = self._start_memory
         self._monitor_thread = threading.Thread(target=self.monitor)
@@ -340,12 +340,12 @@ class PSUtilProfiler(psutil.Process):
         if self._start_cpu_times is None:
             raise RuntimeError("PSUtilProfiler.stop was called before start.")
 
+        stop_time = time.monotonic()
+
         # Stop the monitoring process
-        self._thread_flag.clear()
+        self._thread_flag.set()
         self._monitor_thread.join()
 
-        stop_time = time.time()
-
         # Get all stats at the same time
         with self.oneshot():
             cpu_times = self.cpu_times()
@@ -437,10 +437,11 @@ class PSUtilProfiler(psutil.Process):
 
     def monitor(self) -> None:
         """Track peak memory."""
-        while self._thread_flag.is_set():
+        while not self._thread_flag.is_set():
             current_mem = psutil.virtual_memory().used
             self._peak_memory = max(self._peak_memory, current_mem)
-            time.sleep(0.5)
+            # Return as soon as profiling stops
+            self._thread_flag.wait(0.5)
 
     @property
     def cpu_count(self) -> int:
-- 
2.43.0


From 521088a72b4191dca4022d0f328e6c61d9c6a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:50 +0000
Subject: [PATCH 076/103] fix: the peak memory can be less than the memory used
 at the end

---
 caput/util/profiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/util/profiler.py b/caput/util/profiler.py
index 80b6002..448f129 100644
--- a/caput/util/profiler.py
+++ b/caput/util/profiler.py
@@ -385,6 +385,7 @@ class PSUtilProfiler(psutil.Process):
         self._usage["memory"] = memory
         self._usage["used_memory"] = used_memory
         self._usage["available_memory"] = available_memory
+        self._peak_memory = max(self._peak_memory, used_memory)
         self._usage["peak_memory"] = self._peak_memory
 
         time_s = stop_time - self._start_time
-- 
2.43.0


From ed66c061c9f4f082fcfb0caf9e3051af6b6bd82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 077/103] fix: empty and array inputs of file tasks are not
 cast or stop the pipeline

---
 caput/pipeline/extensions/_extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index a0fc3ea..d13c517 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -216,7 +216,7 @@ class SingleBase(_OneAndOne):
         except AttributeError:
             self.done = True
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         return self.read_process_write(input, self.input_filename, self.output_filename)
 
@@ -288,7 +288,7 @@ class IterBase(_OneAndOne):
             input_filename = middle + self.input_ext
             output_filename = middle + self.output_ext
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         output = self.read_process_write(input, input_filename, output_filename)
         self.iteration += 1
-- 
2.43.0


From 5587adea8f08fa71428b472fa5fcc3349ba823ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 078/103] fix: file tasks fail to make their output directory

---
 caput/pipeline/extensions/_extensions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index d13c517..1748987 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -132,8 +132,9 @@ class _OneAndOne(Task):
                 "%s writing data to file %s.", self.__class__.__name__, output_filename
             )
             output_dirname = os.path.dirname(output_filename)
-            if not os.path.isdir(output_dirname):
-                os.makedirs(output_dirname)
+            # Other MPI processes may be creating the directory as well
+            if output_dirname != "":
+                os.makedirs(output_dirname, exist_ok=True)
             self.write_output(
                 output_filename,
                 output,
-- 
2.43.0


From 19c536d0fbb0f21d8bb62c5edb15ee2915b5a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:16 +0000
Subject: [PATCH 079/103] fix: file tasks cannot write outputs that are on disk
 in HDF5

---
 caput/pipeline/extensions/_extensions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 1748987..a78fa43 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -349,7 +349,7 @@ class GroupIOMixin:
         """
         import h5py
 
-        from ...memdata import MemGroup
+        from ...memdata import MemGroup, deep_group_copy
 
         file_format = fileformats.check_file_format(filename, file_format, output)
 
@@ -383,12 +383,13 @@ class GroupIOMixin:
                 output.file.filename, filename
             ):
                 # `output` already lives in this file.
-                output.flush()
+                output.file.flush()
 
             else:
                 # Copy to memory then to disk
                 # XXX This can be made much more efficient using a direct copy.
-                out_copy = MemGroup.from_hdf5(output)
+                out_copy = MemGroup()
+                deep_group_copy(output, out_copy)
 
                 # Lock file as we write
                 with lock_file(filename, comm=out_copy.comm) as fn:
-- 
2.43.0


From a77010c555d567180b9d1b7e709185b0e40c66ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:16 +0000
Subject: [PATCH 080/103] fix: file tasks cannot write outputs that are on disk
 in zarr from several processes

---
 caput/pipeline/extensions/_extensions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index a78fa43..c38daa5 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -410,9 +410,12 @@ class GroupIOMixin:
                         zarr.DirectoryStore(filename),
                         source_path=output.path,
                     )
-                logger.debug(
-                    f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
-                )
+                    logger.debug(
+                        f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
+                    )
+
+                # The output is only there once the copy has finished
+                mpitools.barrier()
 
 
 class ContainerIOMixin:
-- 
2.43.0


From 4651dd102bd6cd47465b4e96c41ea3a50bf98338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:08 +0000
Subject: [PATCH 081/103] fix: copying part of a tree fails, and copying into
 part of a tree fills its root

---
 caput/memdata/_memh5.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 437ced2..5f22710 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -290,8 +290,10 @@ class _BaseGroup(_MemObjMixin, Mapping):
 
         if isinstance(out, MemDataset):
             # Create back references for user facing mem datasets.
+            # The dataset may be shared with another tree, at another path.
             out = out.view()
             out._storage_root = self._storage_root
+            out._name = path
             return out
 
         # H5py dataset.
@@ -2519,27 +2521,25 @@ def deep_group_copy(
     to_file = isinstance(g2, file_format.module.Group)
 
     # Define functions applied to each dataset
-    def _get_selection(dset: DatasetLike) -> SelectionLike:
+    def _get_selection(key: str) -> SelectionLike:
         """Get the selections associated with this dataset.
 
         Returns: slice
         """
         # Look for a selection for this dataset (also try without the leading "/")
         try:
-            selection = selections.get(
-                dset.name, selections.get(dset.name[1:], slice(None))
-            )
+            selection = selections.get("/" + key, selections.get(key, slice(None)))
         except AttributeError:
             selection = slice(None)
 
         return selection
 
-    def _prepare_dataset(dset: DatasetLike) -> dict:
+    def _prepare_dataset(key: str, dset: DatasetLike) -> dict:
         """Prepare a dataset for writing, applying selections and transforming datatypes.
 
         Returns: dict(dtype, shape, data_to_write)
         """
-        selection = _get_selection(dset)
+        selection = _get_selection(key)
 
         # Check if this is a distributed dataset and figure out if we can make this work
         # out
@@ -2557,7 +2557,7 @@ def deep_group_copy(
 
             # If we get here, we should create the dataset, but not write out
             # any data into it (i.e. return None)
-            distributed_dset_names.append(dset.name)
+            distributed_dset_names.append(key)
             return {"dtype": dset.dtype, "shape": dset.shape, "data": None}
 
         # Extract the data for the selection
@@ -2652,23 +2652,25 @@ def deep_group_copy(
         shared = {"/" + k if k[0] != "/" else k for k in shared}
 
     # Do a non-recursive traversal of the tree, recreating the structure and attributes,
-    # and copying over any non-distributed datasets
-    stack = [g1]
+    # and copying over any non-distributed datasets. The keys are the paths of the entries
+    # relative to the groups being copied from and to.
+    stack = [("", g1)]
 
     while stack:
-        entry = stack.pop()
-        key = entry.name
+        key, entry = stack.pop()
 
         if is_group(entry):
-            if key != g1.name:
+            if key:
                 # Only create group if we are above the starting level
                 g2.create_group(key)
 
-            stack += [entry[k] for k in sorted(entry, reverse=True)]
+            stack += [
+                (posixpath.join(key, k), entry[k]) for k in sorted(entry, reverse=True)
+            ]
 
-        elif shallow or (key in shared):
+        elif shallow or ("/" + key in shared):
             # Make sure that we aren't trying to apply a selection to this dataset
-            if _get_selection(entry) != slice(None):
+            if _get_selection(key) != slice(None):
                 raise ValueError(
                     f"Cannot apply a selection to a shared dataset ({entry.name})"
                 )
@@ -2676,12 +2678,13 @@ def deep_group_copy(
             parent_name, name = posixpath.split(posixpath.join(g2.name, key))
             parent_name = format_abs_path(parent_name)
             # Get the proper storage location for this dataset
-            g2[parent_name]._get_storage()[name] = g1._get_storage()[key]
+            source = format_abs_path(posixpath.join(g1.name, key))
+            g2[parent_name]._get_storage()[name] = g1._storage_root[source]
 
         else:
             # Copy over this dataset. `_prepare_dataset` will make
             # a deep copy of the dataset
-            dset_args = _prepare_dataset(entry)
+            dset_args = _prepare_dataset(key, entry)
             compression_kwargs = _prepare_compression_args(entry, dset_args["shape"])
 
             g2.create_dataset(
@@ -2690,7 +2693,7 @@ def deep_group_copy(
                 **compression_kwargs,
             )
 
-        target = g2[key]
+        target = g2[key] if key else g2
         copyattrs(entry.attrs, target.attrs, convert_strings=convert_attribute_strings)
 
         if postprocess:
-- 
2.43.0


From 8e21d51fbbe1e7d6e6c8b82720eb84e304704ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:09 +0000
Subject: [PATCH 082/103] fix: reloaded skyfield data is not used

---
 caput/astro/skyfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/astro/skyfield.py b/caput/astro/skyfield.py
index 19981ef..2b5499b 100644
--- a/caput/astro/skyfield.py
+++ b/caput/astro/skyfield.py
@@ -169,7 +169,9 @@ class SkyfieldWrapper:
         """
         # Download the timescale file and ephemeris
         self.load.download("finals2000A.all")
+        self._timescale = None
         self.load.download(self._ephemeris_name)
+        self._ephemeris = None
 
 
 # Set up a module local Skyfield wrapper for time conversion functions in this
-- 
2.43.0


From 19fb65ccbefcdd8ec88d46a4a3056ada861f697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:34 +0000
Subject: [PATCH 083/103] fix: subtasks without a setup take no arguments of a
 task group

---
 caput/pipeline/tasklib/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 1d42b4b..411b0bc 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -673,6 +673,10 @@ def group_tasks(*tasks):
             import inspect
 
             for t in tasks:
+                if t.setup is Task.setup:
+                    # This subtask has no setup of its own, so it takes no arguments
+                    continue
+
                 setup_argspec = inspect.getfullargspec(t.setup)
                 # Number of arguments excluding `self`
                 n_args = len(setup_argspec.args) - 1
-- 
2.43.0


From 38e56fea93ca1265855c291f7d301cf66726e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:34 +0000
Subject: [PATCH 084/103] fix: task groups pass nothing on when a subtask has
 no output

---
 caput/pipeline/tasklib/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 411b0bc..4947747 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -695,6 +695,10 @@ def group_tasks(*tasks):
                 self.log.debug(f"Calling process for subtask {t!s}")
                 x = t.process(self, x)
 
+                if x is None:
+                    # There is nothing to pass on to the next subtask
+                    break
+
             return x
 
     return TaskGroup
-- 
2.43.0


From 4c623467a40ecfed9990f5f253eb9716a3030085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:16 +0000
Subject: [PATCH 085/103] fix: close HDF5 files opened by a MemDiskGroup, and
 only those

---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 5f22710..ca616f0 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1674,7 +1674,7 @@ class MemDiskGroup(_BaseGroup):
                 data_group, mode="a", file_format=file_format
             )
             # Zarr arrays are automatically flushed and closed
-            toclose = False if file_format == fileformats.HDF5 else toclose
+            toclose = toclose and isinstance(data_group, h5py.File)
 
         # Check the distribution settings
         if distributed:
-- 
2.43.0


From fdb36fcddde62e47af978fd944b3481889d6a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:16 +0000
Subject: [PATCH 086/103] fix: flushing a MemDiskGroup in a zarr file

---
 caput/memdata/_memh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index ca616f0..f083573 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2173,7 +2173,8 @@ class MemDiskGroup(_BaseGroup):
 
     def flush(self):
         """Flush the buffers of the underlying hdf5 file if on disk."""
-        if self.ondisk:
+        # Zarr arrays are always written through
+        if self.ondisk and isinstance(self._data, h5py.File):
             self._data.flush()
 
     def copy(self, shared=[], shallow=False):
-- 
2.43.0


From d4ac027b97ee24be45ace437ecbe64346089e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:16 +0000
Subject: [PATCH 087/103] fix: load an open zarr group into memory

---
 caput/memdata/_memh5.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index f083573..3585cb9 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1918,9 +1918,10 @@ class MemDiskGroup(_BaseGroup):
         lockfile = None
 
         if not ondisk:
-            if (zarr_available and isinstance(file_, zarr.Group)) or isinstance(
-                file_, h5py.Group
-            ):
+            if zarr_available and isinstance(file_, zarr.Group):
+                file_ = file_.store.path
+                file_format = fileformats.Zarr
+            elif isinstance(file_, h5py.Group):
                 file_ = file_.filename
 
             kwargs.pop("mode", None)
-- 
2.43.0


From 1694e06f1473310e2009a6fd449f642bca8c0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:16 +0000
Subject: [PATCH 088/103] fix: save a MemDiskGroup that is on disk into a new
 file

---
 caput/memdata/_memh5.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 3585cb9..9e7afe6 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2251,8 +2251,15 @@ class MemDiskGroup(_BaseGroup):
         if (zarr_available and isinstance(self._data, zarr.Group)) or isinstance(
             self._data, h5py.File
         ):
+            kwargs.setdefault("mode", "w")
             with file_format.open(filename, **kwargs) as f:
-                deep_group_copy(self._data, f)
+                deep_group_copy(
+                    self._data,
+                    f,
+                    convert_attribute_strings=convert_attribute_strings,
+                    convert_dataset_strings=convert_dataset_strings,
+                    file_format=file_format,
+                )
         else:
             self._data.to_file(
                 filename,
-- 
2.43.0


From c3ac6ed6ca09b3bcd71faf1fc413cdc1af425acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:51 +0000
Subject: [PATCH 089/103] fix: copying a zarr group into an HDF5 file

---
 caput/memdata/_memh5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 9e7afe6..7589b29 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2616,7 +2616,12 @@ def deep_group_copy(
             compression_kwargs = file_format.compression_kwargs(
                 compression=compression,
                 compression_opts=compression_opts,
-                compressor=getattr(dset, "compressor", None),
+                # HDF5 can't use the compressor of a zarr dataset
+                compressor=(
+                    None
+                    if file_format == fileformats.HDF5
+                    else getattr(dset, "compressor", None)
+                ),
             )
         else:
             # in-memory case; use HDF5 compression args format for this case
-- 
2.43.0


From 5711e3d06751d7bc307fdf9895a76079790c1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:05 +0000
Subject: [PATCH 090/103] fix: several processes closing a shared zarr
 container

---
 caput/memdata/_memh5.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 7589b29..d58a5eb 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1701,7 +1701,11 @@ class MemDiskGroup(_BaseGroup):
     def __enter__(self):
         return self
 
-    def __exit__(self, *args):
+    def __exit__(self, exc_type, *args):
+        if exc_type is not None:
+            # The other processes may never get to close the file, so don't wait for them
+            self._lockfile = None
+
         self.close()
 
     @classmethod
@@ -1775,8 +1779,17 @@ class MemDiskGroup(_BaseGroup):
         if self.ondisk and hasattr(self, "_toclose") and self._toclose:
             self._storage_root.close()
 
-        if hasattr(self, "_lockfile") and (self.comm is None or self.comm.rank is None):
-            fileformats.remove_file_or_dir(self._lockfile)
+        if getattr(self, "_lockfile", None) is not None:
+            # Remove the locks once, and only when no other process uses them any more
+            comm = mpitools.world if self._comm is None else self._comm
+
+            if comm is not None:
+                comm.Barrier()
+
+            if comm is None or comm.rank == 0:
+                fileformats.remove_file_or_dir(self._lockfile)
+
+            self._lockfile = None
 
     def __getitem__(self, name):
         """Retrieve an object.
-- 
2.43.0


From 63d24ec04db7f7e8da16d6115286e650b54793c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:49 +0000
Subject: [PATCH 091/103] fix: save a read-only MemDiskGroup that has no class
 hint

---
 caput/memdata/_memh5.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index d58a5eb..26b947b 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2254,12 +2254,8 @@ class MemDiskGroup(_BaseGroup):
         if convert_dataset_strings is None:
             convert_dataset_strings = getattr(self, "convert_dataset_strings", False)
 
-        # Write out a hint as to what the class of this object is, do this by
-        # inserting it into the attributes before saving out.
-        if "__memh5_subclass" not in self.attrs:
-            clspath = self.__class__.__module__ + "." + self.__class__.__name__
-
-            self.attrs["__memh5_subclass"] = clspath
+        # A hint as to what the class of this object is
+        clspath = self.__class__.__module__ + "." + self.__class__.__name__
 
         if (zarr_available and isinstance(self._data, zarr.Group)) or isinstance(
             self._data, h5py.File
@@ -2273,7 +2269,14 @@ class MemDiskGroup(_BaseGroup):
                     convert_dataset_strings=convert_dataset_strings,
                     file_format=file_format,
                 )
+                # This object may be read only, so only add the hint to the new file
+                if "__memh5_subclass" not in f.attrs:
+                    f.attrs["__memh5_subclass"] = clspath
         else:
+            # Write out the hint by inserting it into the attributes before saving out.
+            if "__memh5_subclass" not in self.attrs:
+                self.attrs["__memh5_subclass"] = clspath
+
             self._data.to_file(
                 filename,
                 convert_attribute_strings=convert_attribute_strings,
-- 
2.43.0


From 8741d15cb96137a62c660665b9b39f4ca98928cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 092/103] fix: attributes of a zarr container are lost when it
 is copied

---
 caput/memdata/_memh5.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 26b947b..af74dd5 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1765,6 +1765,14 @@ class MemDiskGroup(_BaseGroup):
 
         return self
 
+    def _get_storage(self):
+        # Groups of a zarr file cache their attributes, so always use the same object
+        # for the ones of the root
+        if self.name == self._storage_root.name:
+            return self._storage_root
+
+        return super()._get_storage()
+
     @property
     def _data(self):
         """_data was renamed to _storage_root. This added for compatibility."""
-- 
2.43.0


From ae70dd984e48b08d6764d969bb3bf37e976e7713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:47 +0000
Subject: [PATCH 093/103] fix: negative values with zero weight are truncated
 to zero

---
 caput/util/truncate.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/truncate.pyx b/caput/util/truncate.pyx
index 970dca8..57180f2 100644
--- a/caput/util/truncate.pyx
+++ b/caput/util/truncate.pyx
@@ -104,7 +104,7 @@ def _bit_truncate_weights_float(float[:] val, float[:] inv_var, float fallback):
         if inv_var[i] != 0:
             val[i] = _bit_truncate_float(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_float(val[i], fallback * val[i])
+            val[i] = _bit_truncate_float(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
@@ -126,7 +126,7 @@ def _bit_truncate_weights_double(double[:] val, double[:] inv_var, double fallba
         if inv_var[i] != 0:
             val[i] = _bit_truncate_double(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_double(val[i], fallback * val[i])
+            val[i] = _bit_truncate_double(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
-- 
2.43.0


From 3732ab2e4c2eb320db1b6e5f220cd6dd2a54e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:47 +0000
Subject: [PATCH 094/103] fix: truncation weights distributed differently from
 the data

---
 caput/pipeline/tasklib/io.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 06948c5..40af607 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -734,12 +734,15 @@ class Truncate(ContainerTask):
         data = container[dset]
 
         if isinstance(weight, MemDataset):
-            # Add missing broadcast axes to the weights dataset
-            waxes = weight.attrs.get("axis", [])
-            daxes = data.attrs.get("axis", [])
-            # Add length-one axes
+            waxes = list(weight.attrs.get("axis", []))
+            daxes = list(data.attrs.get("axis", []))
+            weight = self._get_local_weights(weight, waxes, data, daxes)
+            # Use the same order of the axes as the dataset
+            if all(ax in daxes for ax in waxes):
+                weight = weight.transpose([waxes.index(ax) for ax in daxes if ax in waxes])
+            # Add missing broadcast axes to the weights dataset, with length one
             slobj = tuple(slice(None) if ax in waxes else np.newaxis for ax in daxes)
-            weight = weight[:][slobj]
+            weight = weight[slobj]
 
         # Broadcast `weight` against the shape of the truncation array
         weight = np.broadcast_to(weight, data[:].shape).copy().reshape(-1)
@@ -749,6 +752,28 @@ class Truncate(ContainerTask):
 
         return weight
 
+    @staticmethod
+    def _get_local_weights(weight, waxes, data, daxes):
+        """Get the part of the weights that applies to the local part of a dataset."""
+        daxis = daxes[data.distributed_axis] if data.distributed else None
+
+        if weight.distributed:
+            if daxis in waxes:
+                weight = weight[:].redistribute(waxes.index(daxis))
+            else:
+                weight = weight[:].allgather()
+        elif daxis in waxes:
+            # The weights are not distributed, but this axis of the dataset is
+            start = data.local_offset[data.distributed_axis]
+            stop = start + data.local_shape[data.distributed_axis]
+            slobj = [slice(None)] * len(waxes)
+            slobj[waxes.index(daxis)] = slice(start, stop)
+            weight = weight[:][tuple(slobj)]
+        else:
+            weight = weight[:]
+
+        return weight.view(np.ndarray)
+
     def process(self, data):
         """Truncate the incoming data.
 
-- 
2.43.0


From 49d38893727b109eee060cb179a37984c9a5368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:18 +0000
Subject: [PATCH 095/103] fix: hints=False is ignored when saving a distributed
 group

---
 caput/memdata/_memh5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index af74dd5..6f4e346 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -676,6 +676,7 @@ class MemGroup(_BaseGroup):
                 self,
                 filename,
                 mode,
+                hints=hints,
                 convert_attribute_strings=convert_attribute_strings,
                 convert_dataset_strings=convert_dataset_strings,
                 file_format=file_format,
-- 
2.43.0


From 25bc9038077e146cbe1ba93fab82877280c538af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:23 +0000
Subject: [PATCH 096/103] fix: a sub-group converts the dataset of the same
 name at the root

MemDiskGroup.dataset_common_to_distributed and dataset_distributed_to_common
handed the relative name to the root of the storage.
---
 caput/memdata/_memh5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 6f4e346..8dca5b3 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2091,7 +2091,8 @@ class MemDiskGroup(_BaseGroup):
             If the underlying storage is not a :py:class:`MemGroup`.
         """
         if isinstance(self._data, MemGroup):
-            return self._data.dataset_common_to_distributed(name, distributed_axis)
+            path = posixpath.join(self.name, name)
+            return self._data.dataset_common_to_distributed(path, distributed_axis)
 
         raise RuntimeError(
             f"Can not convert a h5py or zarr dataset {name} to distributed"
@@ -2116,7 +2117,8 @@ class MemDiskGroup(_BaseGroup):
             If the underlying storage is not a :py:class:`MemGroup`.
         """
         if isinstance(self._data, MemGroup):
-            return self._data.dataset_distributed_to_common(name)
+            path = posixpath.join(self.name, name)
+            return self._data.dataset_distributed_to_common(path)
 
         raise RuntimeError(
             f"Can not convert a h5py or zarr dataset {name} to distributed"
-- 
2.43.0


From c3467bb6ac63d57e38ea382fb561c4fd6c68e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:22 +0000
Subject: [PATCH 097/103] fix: an FFTW object overwrites the array transformed
 before

A pyfftw object keeps the last array it was given as its input and copies the
next one into it if that has another layout, so that transforming a
non-contiguous or unaligned array overwrote the previous caller's data.
---
 caput/algorithms/fft/fftw.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/fft/fftw.py b/caput/algorithms/fft/fftw.py
index 599f00b..3c5ebc9 100644
--- a/caput/algorithms/fft/fftw.py
+++ b/caput/algorithms/fft/fftw.py
@@ -127,6 +127,17 @@ class FFTW:
         """
         return self._params
 
+    def _aligned(self, x):
+        """Get `x` in the layout this FFT was planned for, copying it if needed.
+
+        The underlying FFTW object holds on to the last array it was given. If it
+        were to receive something with another layout, it would copy it *into*
+        that array, which belongs to the caller.
+        """
+        return pyfftw.byte_align(
+            np.ascontiguousarray(x), n=self._nsimd, dtype=self._params["dtype"]
+        )
+
     def fft(self, x):
         """Perform a forward FFT.
 
@@ -147,7 +158,7 @@ class FFTW:
         """
         try:
             return self._fft(
-                input_array=x,
+                input_array=self._aligned(x),
                 output_array=pyfftw.empty_aligned(x.shape, x.dtype, n=self._nsimd),
             )
         except AttributeError:
@@ -176,7 +187,7 @@ class FFTW:
         """
         try:
             return self._ifft(
-                input_array=x,
+                input_array=self._aligned(x),
                 output_array=pyfftw.empty_aligned(x.shape, x.dtype, n=self._nsimd),
             )
         except AttributeError:
-- 
2.43.0


From bcfe92be4439e198b5cf3a84d4c1bad144120951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 098/103] fix: data with bitshuffle compression can't be saved
 after loading it

h5py reports the compression of such a dataset as "unknown" (or None, in older
versions), which isn't accepted (or loses the compression) when writing it.
---
 caput/memdata/_memh5.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 8dca5b3..d57fd24 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2638,6 +2638,16 @@ def deep_group_copy(
         compression = getattr(dset, "compression", None)
         compression_opts = getattr(dset, "compression_opts", None)
 
+        # h5py can't tell the name and options of filters which are plugins
+        if isinstance(dset, h5py.Dataset) and compression in (None, "unknown"):
+            compression = None
+            filters = dset.id.get_create_plist()
+            for _code, _, opts, _ in map(
+                filters.get_filter, range(filters.get_nfilters())
+            ):
+                if _code == fileformats.H5FILTER:
+                    compression, compression_opts = _code, tuple(opts[3:5])
+
         if to_file:
             # massage args according to file format
             compression_kwargs = file_format.compression_kwargs(
-- 
2.43.0


From f7e694ebbcba57ef6341643e8b9b15d3ef4e6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 099/103] fix: chunks and compression are ignored when writing
 an array without MPI-IO

---
 caput/mpiarray.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index f01ad72..d1dd529 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1112,7 +1112,15 @@ class MPIArray(np.ndarray):
 
         if not h5py.get_config().mpi:
             if isinstance(f, str):
-                self._to_hdf5_serial(f, dataset, create)
+                self._to_hdf5_serial(
+                    f,
+                    dataset,
+                    create,
+                    chunks=chunks,
+                    **fileformats.HDF5.compression_kwargs(
+                        compression=compression, compression_opts=compression_opts
+                    ),
+                )
                 return
 
             raise ValueError(
@@ -1654,9 +1662,9 @@ class MPIArray(np.ndarray):
         )
 
     def _to_hdf5_serial(
-        self, filename: str, dataset: str, create: bool = False
+        self, filename: str, dataset: str, create: bool = False, **kwargs
     ) -> None:
-        """Write into an HDF5 dataset.
+        r"""Write into an HDF5 dataset.
 
         This explicitly serialises the IO so that it works when h5py does not
         support MPI-IO.
@@ -1674,6 +1682,8 @@ class MPIArray(np.ndarray):
         create : bool, optional
             True if a new file should be created (if needed).
             Default is False.
+        \**kwargs : Any
+            Chunking and compression options, used if the dataset is created.
         """
         import os
         import time
@@ -1687,6 +1697,7 @@ class MPIArray(np.ndarray):
                     dataset,
                     self.global_shape,
                     dtype=self.dtype,
+                    **kwargs,
                 )
                 dset[:] = np.array(0.0).astype(self.dtype)
 
-- 
2.43.0


From d9a164f8fa4ed33be062fe13242946492cf0f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:47 +0000
Subject: [PATCH 100/103] fix: a file with a dict attribute can't be copied to
 another file

Attributes stored as JSON were decoded also when copying them to another file,
and HDF5 can't store the result.
---
 caput/memdata/_memh5.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index d57fd24..9cc0c01 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2444,6 +2444,10 @@ def copyattrs(a1, a2, convert_strings=False):
                 # Let the default method raise the TypeError
                 return json.JSONEncoder.default(self, o)
 
+        if isinstance(value, str) and value.startswith(json_prefix):
+            # Read from JSON, keep serialised datetimes as strings
+            value = _map_unicode(json.loads(value[len(json_prefix) :]))
+
         if (
             isinstance(value, dict | np.ndarray | datetime.datetime)
             and zarr_available
@@ -2459,9 +2463,6 @@ def copyattrs(a1, a2, convert_strings=False):
             if isinstance(value, np.ndarray):
                 value = value.tolist()
             value = json_prefix + encoder.encode(value)
-        elif isinstance(value, str) and value.startswith(json_prefix):
-            # Read from JSON, keep serialised datetimes as strings
-            value = json.loads(value[len(json_prefix) :])
         return value
 
     for key in sorted(a1):
-- 
2.43.0


From 80e13a6948ec6dce9e5d86a2be836b123ad5eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 101/103] fix: parallel HDF5 writes open the file on COMM_WORLD

The communicator of the array was passed as the use_mpi flag.
---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index d1dd529..da9914c 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1130,7 +1130,7 @@ class MPIArray(np.ndarray):
         from .memdata._io import open_h5py_mpi
 
         mode = "a" if create else "r+"
-        fh = open_h5py_mpi(f, mode, self.comm)
+        fh = open_h5py_mpi(f, mode, comm=self.comm)
 
         sel = self._make_selections()
 
-- 
2.43.0


From 871228709a0f675c7fab6a77e9df0fa6574da344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 102/103] fix: empty arrays can't be read or written with
 parallel HDF5

---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index da9914c..e6adc1b 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1749,7 +1749,7 @@ class MPIArray(np.ndarray):
         min_axis_size = int(np.ceil(largest_size / threshold_bytes))
 
         # Return early if we can
-        if skip or min_axis_size == 1:
+        if skip or min_axis_size <= 1:
             return 0, [slice(0, self.local_shape[0])]
 
         if self.ndim == 1:
-- 
2.43.0


From c1f12fc6f7e4c2083841099821c6eb9d7f17f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 103/103] fix: bitshuffle compression isn't available to
 parallel HDF5 writes

---
 caput/mpiarray.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index e6adc1b..ae8b598 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1143,8 +1143,9 @@ class MPIArray(np.ndarray):
             shape=self.global_shape,
             dtype=self.dtype,
             chunks=chunks,
-            compression=compression,
-            compression_opts=compression_opts,
+            **fileformats.HDF5.compression_kwargs(
+                compression=compression, compression_opts=compression_opts
+            ),
         )
 
         # Decide whether to use collective IO. There are a few relevant aspects to this
-- 
2.43.0

