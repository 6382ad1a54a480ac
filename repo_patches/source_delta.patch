From 6c75067650126caa5cfac6e415bb3122c9927397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 01/52] fix: parallel_bincount raised TypeError for uint64
 input on every rank

---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 534e40d..4f9d76e 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1122,7 +1122,7 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
     # Find the maximum value in x
     x_max = np.amax(x) if len(x) > 0 else 0
     x_max = comm.allreduce(x_max, op=MPI.MAX)
-    total_nr_bins = x_max+1
+    total_nr_bins = int(x_max)+1
 
     # Find total number of bins needed
     if minlength is not None:
-- 
2.43.0


From cb2eab1fe6c039b28ad9fb7a05b775619ce8ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 02/52] fix: sendrecv ignored the MPI datatypes it creates, so
 record arrays raised KeyError

---
 python/virgo/mpi/parallel_sort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 4f9d76e..103969c 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -179,8 +179,8 @@ def sendrecv(dest, sendbuf, recvbuf, comm=None, nchunk=None):
     while (nr_send_left > 0) or (nr_recv_left > 0):
         nr_send = min(nchunk, nr_send_left)
         nr_recv = min(nchunk, nr_recv_left)
-        comm.Sendrecv(sendbuf[send_offset:send_offset+nr_send], dest,
-                      recvbuf=recvbuf[recv_offset:recv_offset+nr_recv],
+        comm.Sendrecv([sendbuf[send_offset:send_offset+nr_send], mpi_type_send], dest,
+                      recvbuf=[recvbuf[recv_offset:recv_offset+nr_recv], mpi_type_recv],
                       source=dest)
         send_offset  += nr_send
         nr_send_left -= nr_send
-- 
2.43.0


From d2ac68ac4d901bd5e8eef2fb34cbeab39401149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 03/52] fix: collective_read hung for types other than integers
 and floats when ranks need different numbers of iterations

---
 python/virgo/mpi/parallel_hdf5.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 2fdaf77..d99e0bd 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -149,14 +149,29 @@ def collective_read(dataset, comm, buffer_size=None):
         shape = list(dataset.shape)
         shape[0] = num_on_task[comm_rank]
         data = np.ndarray(shape, dtype=dataset.dtype)
-        # Read the data
+        # Read the data. As in collective_write() we need the low level interface
+        # here because the high level interface omits zero sized reads of types
+        # other than integers and floats, which causes a hang if some ranks need
+        # more iterations than others.
+        dset_id = dataset.id
+        file_space = dset_id.get_space()
+        mem_space = h5py.h5s.create_simple(data.shape)
+        prop_list = h5py.h5p.create(h5py.h5p.DATASET_XFER)
+        prop_list.set_dxpl_mpio(h5py.h5fd.MPIO_COLLECTIVE)
         offset_in_mem = 0
         offset_in_file = offset_on_task[comm_rank]
         nr_left = num_on_task[comm_rank]
         for i in range(global_nr_iterations):
             length = min(nr_left, buffer_size_elements)
-            with dataset.collective:
-                data[offset_in_mem:offset_in_mem+length,...] = dataset[offset_in_file:offset_in_file+length,...]
+            if length > 0:
+                rest = (0,)*(len(shape)-1)
+                count = (length,)+tuple(shape[1:])
+                file_space.select_hyperslab((offset_in_file,)+rest, count)
+                mem_space.select_hyperslab((offset_in_mem,)+rest, count)
+            else:
+                file_space.select_none()
+                mem_space.select_none()
+            dset_id.read(mem_space, file_space, data, dxpl=prop_list)
             offset_in_mem += length
             offset_in_file += length
             nr_left -= length
-- 
2.43.0


From 3bf37b72c4d80cd52857a4b9a31c6021833645d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 04/52] fix: collective_read and collective_write failed or
 never ended for rows larger than the buffer and rows of zero size

---
 python/virgo/mpi/parallel_hdf5.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index d99e0bd..2d2eb21 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -139,10 +139,13 @@ def collective_read(dataset, comm, buffer_size=None):
             element_size *= s
         local_nr_bytes = num_on_task[comm_rank] * element_size
         # Compute number of iterations this task needs
-        buffer_size_elements = buffer_size // element_size
+        # (at least one element each, and none if elements have zero size)
+        buffer_size_elements = max(1, buffer_size // max(1, element_size))
         local_nr_iterations = num_on_task[comm_rank] // buffer_size_elements
         if num_on_task[comm_rank] % buffer_size_elements > 0:
             local_nr_iterations += 1
+        if element_size == 0:
+            local_nr_iterations = 0
         # Find maximum number of iterations over all tasks
         global_nr_iterations = comm.allreduce(local_nr_iterations, op=MPI.MAX)
         # Allocate the output array
@@ -250,7 +253,10 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     element_size = data.dtype.itemsize
     for s in full_shape[1:]:
         element_size *= s
-    max_elements = buffer_size // element_size
+    # (at least one, and there is nothing to write if elements have zero size)
+    max_elements = max(1, buffer_size // max(1, element_size))
+    if element_size == 0:
+        nr_left = 0
 
     # We need to use the low level interface here because the h5py high
     # level interface omits zero sized writes, which causes a hang in
-- 
2.43.0


From 961df77ace0499faa51f3a09e92d9831665461cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 05/52] fix: attributes added to a dataset of a binary file
 ignored the byte order set for the file

---
 python/virgo/util/read_binary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index fe954dd..af32706 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -175,6 +175,7 @@ class BinaryGroup(Mapping):
                 if tail in self.datasets[head].attrs:
                     raise KeyError("Duplicate attribute name!")
                 new_block = BinaryDataset(fname, dtype, offset, shape, tail)
+                new_block.endian = endian
                 self.datasets[head].attrs._items[tail] = new_block
             else:
                 # We're adding something to a sub-group, so ensure sub-group exists
-- 
2.43.0


From 37e5925ab6308be50e9b29cb6259aa0781c2736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 06/52] fix: write_hdf5 lost the attributes of the root group
 of a binary file

---
 python/virgo/util/read_binary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index af32706..ebc58d6 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -213,6 +213,11 @@ class BinaryGroup(Mapping):
         else:
             created = False
 
+        # If we created the file nobody else will write our attributes
+        if created:
+            for attr_name in self.attrs.keys():
+                h5group.attrs[attr_name] = self.attrs[attr_name]
+
         # Loop over datasets in this group and write them out
         for dataset_name in self.datasets.keys():
 
-- 
2.43.0


From 51d00dd07ad5cdcf95dcf0c78bfe8d488f6720d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 07/52] fix: write_hdf5 with compression failed for datasets
 with no elements

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index ebc58d6..2d55dfa 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -231,7 +231,7 @@ class BinaryGroup(Mapping):
                 chunks = None
                 
             # Write the dataset
-            if len(src_dset.shape) >= 1:
+            if len(src_dset.shape) >= 1 and src_dset.size > 0:
                 # Array dataset
                 h5group.create_dataset(dataset_name, data=src_dset[...],
                                        shuffle=shuffle,
@@ -239,7 +239,7 @@ class BinaryGroup(Mapping):
                                        compression_opts=compression_opts,
                                        chunks=chunks)
             else:
-                # Scalar dataset
+                # Scalar or empty dataset, which can't be chunked
                 h5group.create_dataset(dataset_name, data=src_dset[...])
 
             # Copy attributes
-- 
2.43.0


From 76c1cb2db2f5afa81eb822fd3ff09a28e4731187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 08/52] fix: the default mode of write_binary is not a valid
 mode for open()

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 2d55dfa..872fd5a 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -508,7 +508,7 @@ class BinaryFile(BinaryGroup):
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
 
-    def write_binary(self, fname, mode="wb-", endian=None):
+    def write_binary(self, fname, mode="xb", endian=None):
         """
         Write all blocks in this file to a new file. Output will be
         in byte order given by endian parameter, or same byte order
-- 
2.43.0


From 0f68c5be7ad254bf03b5223ca6c04f07e3a64a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 09/52] fix: binary datasets of structured type were never byte
 swapped

---
 python/virgo/util/read_binary.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 872fd5a..db11ed2 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -37,6 +37,10 @@ def need_byteswap(data_endian, dtype):
 
     Some types don't have byte order, in which case we return False.
     """
+    if dtype.subdtype is not None:
+        return need_byteswap(data_endian, dtype.base)
+    if dtype.fields is not None:
+        return any(need_byteswap(data_endian, field[0]) for field in dtype.fields.values())
     if dtype.byteorder == "|":
         return False # Byte order not applicable for this type
     if data_endian not in ("<",">","="):
@@ -351,7 +355,9 @@ class BinaryDataset:
         # sure we don't return a view of the memory map because
         # we might need to close the file.
         if need_byteswap(self.endian, self.dtype):
-            array = array[key].byteswap()
+            # Use astype() because structured types may mix byte orders
+            swapped = array.view(array.dtype.newbyteorder(big_or_little(self.endian)))
+            array = swapped[key].astype(array[key].dtype)
         else:
             array = array[key].copy()
         # Return the result
-- 
2.43.0


From 03671c291592d38dffdee1078303c0e4fc0cbdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 10/52] fix: reading from an empty binary file raised
 ValueError instead of reporting the end of the file

---
 python/virgo/util/read_binary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index db11ed2..b4e0f17 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -77,7 +77,9 @@ class MemoryMappedFile:
         self.closed = False
         self.fname  = fname
         self.file   = open(fname, "rb")
-        self.mmap   = mmap.mmap(self.file.fileno(), 0, access=mmap.ACCESS_READ)
+        self.mmap   = None
+        if os.fstat(self.file.fileno()).st_size > 0: # An empty file can't be mapped
+            self.mmap = mmap.mmap(self.file.fileno(), 0, access=mmap.ACCESS_READ)
     def __del__(self):
         self.close()
     def close(self):
@@ -344,7 +346,7 @@ class BinaryDataset:
         # Check that array to read doesn't fall outside the memory map
         if self.offset < 0:
             raise IOError("Found negative offset when reading binary file!")
-        file_size  = self.file.mmap.size()
+        file_size  = self.file.mmap.size() if self.file.mmap is not None else 0
         if self.offset+self.nbytes > file_size:
             raise IOError("Attempt to read past end of file!")
         # Create memory mapped numpy array
-- 
2.43.0


From 4332a78e9baa488ae5216c3d18ee84799ddcc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 11/52] fix: toggle_byteswap did not change the byte order of
 blocks already defined

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index b4e0f17..cdee0c6 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -507,9 +507,9 @@ class BinaryFile(BinaryGroup):
     def toggle_byteswap(self):
         """Reverse the current byte swapping setting"""
         if self.endian == "<":
-            self.endian = ">"
+            self.set_endian(">")
         elif self.endian == ">":
-            self.endian = "<"
+            self.set_endian("<")
         elif self.endian == "=":
             self.enable_byteswap(True)
 
-- 
2.43.0


From 2e0d2cd2501b10c190ec1e5731fe29b92eb3da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:31 +0000
Subject: [PATCH 12/52] fix: extra datasets of a Gadget snapshot could only be
 given as a tuple, not as any sequence

---
 python/virgo/formats/gadget_snapshot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/gadget_snapshot.py b/python/virgo/formats/gadget_snapshot.py
index aa29b0d..914715a 100644
--- a/python/virgo/formats/gadget_snapshot.py
+++ b/python/virgo/formats/gadget_snapshot.py
@@ -102,7 +102,7 @@ class GadgetBinarySnapshotFile(BinaryFile):
             )
         # Add any user specified fields
         if extra is not None:
-            all_datasets += extra
+            all_datasets += tuple(extra)
         
         # Determine what datasets are present in this file
         count_records = 0
-- 
2.43.0


From e52ab892649d0f72049ffe50b9b8c7f5d99444ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 13/52] fix: L-Gadget2 group_ids files could not be opened
 (header entry is NTask, not NFiles)

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 78a6819..8bc3cb1 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -84,7 +84,7 @@ class GroupIDsFile(BinaryFile):
         self.add_dataset("NTask",      np.int32)
         
         # Establish endian-ness by sanity check on number of files
-        nfiles = self["NFiles"][...]
+        nfiles = self["NTask"][...]
         if nfiles < 1 or nfiles > 65535:
             self.enable_byteswap(True)
 
-- 
2.43.0


From 73e714b8c803953527e7ec399aa5ef6a6bf19567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 14/52] fix: sanity check of L-Gadget2 snapshots failed with
 TypeError because of a non-integer number of bits

---
 python/virgo/formats/subfind_lgadget2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 8bc3cb1..3920804 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -349,9 +349,9 @@ class SnapshotFile(BinaryFile):
         # Determine hashbits
         hashbits = 1
         while hashtabsize > 2:
-            hashtabsize /= 2
+            hashtabsize //= 2
             hashbits += 1
-        hashbits /= 3 # bits per dimension
+        hashbits //= 3 # bits per dimension
         del hashtabsize
 
         # Check positions
-- 
2.43.0


From 6927de47b6b6cc81d667311e2399a11cd6a22187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 15/52] fix: read_region of a Millennium snapshot used
 non-integer grid sizes and hash keys

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 3920804..81dfec8 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -462,7 +462,7 @@ class Snapshot():
 
         # Identify requested hash cells
         cellsize = self.boxsize / self.ncell
-        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize)
+        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize).astype(int)
         idx = np.indices((icoords[1]-icoords[0]+1,
                           icoords[3]-icoords[2]+1,
                           icoords[5]-icoords[4]+1))
-- 
2.43.0


From 2cedef5d179eb0dd02a8f0483e406e661335e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 16/52] fix: read_cells raised ValueError if no file contains
 any of the requested cells

---
 python/virgo/formats/subfind_lgadget2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 81dfec8..d978756 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -527,6 +527,10 @@ class Snapshot():
                 vel.append(snap["PartType1/Velocities"][read_particle,:])
                 ids.append(snap["PartType1/ParticleIDs"][read_particle])
 
+        # Return empty arrays if no file contains any of the cells
+        if len(pos) == 0:
+            return np.zeros((0,3), dtype=np.float32), np.zeros((0,3), dtype=np.float32), np.zeros(0, dtype=np.uint64)
+
         # Assemble output arrays
         pos = np.concatenate(pos, axis=0)
         vel = np.concatenate(vel, axis=0)
-- 
2.43.0


From 5212081b9ce00e3aa8accdcfbcc94224d0bc9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 17/52] fix: MXXL sub_tab files could not be opened because
 parameters unknown to the L-Gadget3 reader were passed

---
 python/virgo/sims/mxxl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/virgo/sims/mxxl.py b/python/virgo/sims/mxxl.py
index 792cbab..231a496 100644
--- a/python/virgo/sims/mxxl.py
+++ b/python/virgo/sims/mxxl.py
@@ -35,10 +35,11 @@ class SubTabFile(subfind_lgadget3.SubTabFile):
                  SO_BAR_INFO=False,
                  WRITE_SUB_IN_SNAP_FORMAT=False,
                  id_bytes=8, float_bytes=4):
+        # The L-Gadget3 reader doesn't implement these
+        if SO_BAR_INFO or WRITE_SUB_IN_SNAP_FORMAT:
+            raise NotImplementedError("SO_BAR_INFO and WRITE_SUB_IN_SNAP_FORMAT are not implemented")
         subfind_lgadget3.SubTabFile.__init__(self, fname,
                                              SO_VEL_DISPERSIONS=SO_VEL_DISPERSIONS,
-                                             SO_BAR_INFO=SO_BAR_INFO,
-                                             WRITE_SUB_IN_SNAP_FORMAT=WRITE_SUB_IN_SNAP_FORMAT,
                                              id_bytes=id_bytes, float_bytes=float_bytes)
 
 
-- 
2.43.0


From f5c1802ca381c2f407b4f1246b09a825fa63d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 18/52] fix: Velociraptor properties files could not be opened
 with numpy 1.24 or later (np.int)

---
 python/virgo/formats/velociraptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/velociraptor.py b/python/virgo/formats/velociraptor.py
index be3da77..965f382 100644
--- a/python/virgo/formats/velociraptor.py
+++ b/python/virgo/formats/velociraptor.py
@@ -22,7 +22,7 @@ class PropertiesFile(BinaryFile):
         self.add_attribute("Header/NProcs",   np.int32)
         self.add_attribute("Header/ng",       np.uint64) # "unsigned long" in code - assuming 64 bit system here
         self.add_attribute("Header/ngtot",    np.uint64)
-        self.add_attribute("Header/hsize",    np.int)
+        self.add_attribute("Header/hsize",    int)
         hsize = self["Header"].attrs["hsize"]
         for i in range(hsize):
             self.add_attribute("Header/entry%03d" % i, np.dtype("S40"))
-- 
2.43.0


From 28edfb69afc2503c13384b7271774e3047a46a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 19/52] fix: binary datasets after one with an unsigned 64 bit
 dimension could not be read (offset became a float)

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index cdee0c6..dfb2289 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -300,7 +300,7 @@ class BinaryDataset:
         self.size  = 1
         self.endian = "="
         self.attrs  = BinaryAttrs()
-        for s in shape:
+        for s in self.shape:
             self.size *= s
         self.nbytes = self.dtype.itemsize * self.size
 
-- 
2.43.0


From 3570b3cd39245333e62d495641242f5c45e62dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 20/52] fix: read_fof_group of Gadget-4 snapshots lost the last
 particle of a group if it is the first in a file

---
 python/virgo/formats/subfind_gadget4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 840dc7c..3cba7ba 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -306,7 +306,7 @@ class GroupOrderedSnapshot():
                             result[itype][dataset].append(snap["PartType%d/%s" % (itype, dataset)][first_to_read:last_to_read+1,...])
 
             # Check if we're done
-            if np.all(last_in_snap >= last_in_fof):
+            if np.all(last_in_snap > last_in_fof):
                 break
 
             # Advance to next file
-- 
2.43.0


From 9dade13649402a8f8aa58836e08326d135a11481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 21/52] fix: Gadget-4 catalogues without groups or without
 subhalos could not be read

---
 python/virgo/formats/subfind_gadget4.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 3cba7ba..a8d1879 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -21,7 +21,13 @@ class SubTabFile(BinaryFile):
     Class for reading sub_tab files written by Gadget-4
     """
     def add_record(self, name, dtype, shape=()):
-        """Add a Fortran record containing a single dataset to the file"""
+        """
+        Add a Fortran record containing a single dataset to the file.
+        There is no record in the file if the dataset has no elements.
+        """
+        if 0 in shape:
+            self.add_dataset(name, dtype, shape)
+            return
         self.start_fortran_record()
         self.add_dataset(name, dtype, shape)
         self.end_fortran_record()
@@ -67,7 +73,7 @@ class SubTabFile(BinaryFile):
         # Data blocks for FoF groups
         # These are Fortran records which are only present if ngroups > 0.
         ngroups = self["Ngroups"][...]
-        if ngroups > 0:
+        if ngroups >= 0:
             self.add_record("GroupLen",          np.int32,        (ngroups,))
             self.add_record("GroupMass",         self.float_type, (ngroups,))
             self.add_record("GroupPos",          self.float_type, (ngroups,3))
@@ -86,7 +92,7 @@ class SubTabFile(BinaryFile):
         # Data blocks for Subfind groups
         # These are Fortran records which are only present if nsubgroups > 0.
         nsubgroups = self["Nsubgroups"][...]
-        if nsubgroups > 0:
+        if nsubgroups >= 0:
             self.add_record("SubLen",             np.int32,        (nsubgroups,))
             self.add_record("SubMass",            self.float_type, (nsubgroups,))
             self.add_record("SubPos",             self.float_type, (nsubgroups,3))
@@ -188,11 +194,11 @@ class GroupOrderedSnapshot():
             # Read group lengths etc
             nfof = sub["Ngroups"][...]
             nsub = sub["Nsubgroups"][...]
-            if nfof > 0:
+            if ifile == 0 or nfof > 0:
                 self.foflentype.append(sub["GroupLenType"][...])
                 self.nsubs.append(sub["Nsubs"][...])
                 self.firstsub.append(sub["FirstSub"][...])
-            if nsub > 0:
+            if ifile == 0 or nsub > 0:
                 self.sublentype.append(sub["SubLenType"][...])
 
             # Store number of groups in each file
-- 
2.43.0


From eb813d157054a6b7ad292ec877715ea293647e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 22/52] fix: reading an empty group from a P-Gadget3 snapshot
 raised ValueError

---
 python/virgo/formats/subfind_pgadget3.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index 93734cc..5fdd7e6 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -537,6 +537,15 @@ class GroupOrderedSnapshot():
             # Advance to the next file
             first_in_snap += self.npart_file[ifile]
 
+        # If there are no particles in the range, return empty arrays of the right type
+        if count == 0:
+            for ifile in range(self.num_snap_files):
+                snap = self.open_snap_file(ifile)
+                if "PartType1" in snap:
+                    for dataset in datasets:
+                        result[dataset].append(snap["PartType1/%s" % dataset][:0,...])
+                    break
+
         # Concatenate arrays read from each file
         for dataset in result.keys():
             result[dataset] = np.concatenate(result[dataset], axis=0)
-- 
2.43.0


From 46ed81c935bae7684d550e18e240a05277baab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 23/52] fix: consistency check of L-SubFind files missed out of
 range subhalos if the end of the range overflows 32 bits

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index d978756..ffd0ef1 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -202,7 +202,7 @@ class SubTabFile(BinaryFile):
         ind = nsubperhalo > 0
         if np.any(firstsubofhalo[ind]<0) or np.any(firstsubofhalo[ind]>=nsubgroups):
             raise SanityCheckFailedException("FirstSubOfHalo out of range")
-        if np.any(suboffset<0) or np.any(suboffset+sublen>nids):
+        if np.any(suboffset<0) or np.any(suboffset.astype(np.int64)+sublen>nids):
             raise SanityCheckFailedException("Subhalo particle index(es) out of range")
 
         # Check subhalo parent group index
-- 
2.43.0


From 43db92ea774780f661ac7f8f05d0a128a657dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 24/52] fix: consistency check of L-Gadget3 files missed out of
 range groups and subhalos if the end of the range overflows 32 bits

---
 python/virgo/formats/subfind_lgadget3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget3.py b/python/virgo/formats/subfind_lgadget3.py
index 38bd9fc..e056227 100644
--- a/python/virgo/formats/subfind_lgadget3.py
+++ b/python/virgo/formats/subfind_lgadget3.py
@@ -118,7 +118,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2), 
             # so this test is expected to fail in that case
-            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...]+self["GroupLen"][...] > totnids):
+            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...].astype(np.int64)+self["GroupLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check pointers from groups to subgroups are sane
@@ -127,7 +127,7 @@ class SubTabFile(BinaryFile):
         if np.any(nsubs < 0):
             raise SanityCheckFailedException("Negative number of subgroups in group!")
         ind = nsubs > 0
-        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind]+nsubs[ind] > totnsubgroups):
+        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind].astype(np.int64)+nsubs[ind] > totnsubgroups):
             raise SanityCheckFailedException("Found group with subgroup index out of range!")
 
         # Check some group properties that we expect to be finite and non-negative
@@ -144,7 +144,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2),
             # so this test is expected to fail in that case
-            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...]+self["SubLen"][...] > totnids):
+            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...].astype(np.int64)+self["SubLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check some subgroup properties that we expect to be finite and (in some cases) non-negative
-- 
2.43.0


From 5dd9e749539ff7b5dd4e60346f5c1885b3a42ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 25/52] fix: consistency check of P-Gadget3 files missed out of
 range groups and subhalos if the end of the range overflows 32 bits

---
 python/virgo/formats/subfind_pgadget3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index 5fdd7e6..0a84897 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -264,7 +264,7 @@ class SubTabFile(BinaryFile):
         if np.any(nsubs < 0):
             raise SanityCheckFailedException("Negative number of subgroups in group!")
         ind = nsubs > 0
-        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind]+nsubs[ind] > totnsubgroups):
+        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind].astype(np.int64)+nsubs[ind] > totnsubgroups):
             raise SanityCheckFailedException("Found group with subgroup index out of range!")
 
         # Check some group properties that we expect to be finite and non-negative
@@ -284,7 +284,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2),
             # so this test is expected to fail in that case
-            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...]+self["SubLen"][...] > totnids):
+            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...].astype(np.int64)+self["SubLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check some subgroup properties that we expect to be finite and (in some cases) non-negative
-- 
2.43.0


From 82df3ad81b27628279cd7288363f1b01cb17650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 26/52] fix: consistency check of Rockstar files missed
 particle ranges so large that their end overflows 64 bits

---
 python/virgo/formats/rockstar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/rockstar.py b/python/virgo/formats/rockstar.py
index 22f752b..dbf4c49 100644
--- a/python/virgo/formats/rockstar.py
+++ b/python/virgo/formats/rockstar.py
@@ -119,7 +119,9 @@ class HalosFile(BinaryFile):
         halo = self["Halo"][...]
         p_start = halo["p_start"]
         num_p = halo["num_p"]
-        if not np.all(p_start + num_p <= self["IDs"].shape[0]):
-            raise SanityCheckFailedException("Particle index too large")
         if np.any(p_start < 0):
             raise SanityCheckFailedException("Particle index is negative")
+        # Take care not to overflow, since these may be arbitrary integers if halo_t is wrong
+        nr_ids = self["IDs"].shape[0]
+        if np.any(p_start > nr_ids) or np.any(num_p > nr_ids - p_start):
+            raise SanityCheckFailedException("Particle index too large")
-- 
2.43.0


From becb748a5372b1255314dcd448511404cd97fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 27/52] fix: numpy_type() raised NameError for every SQL type
 because re was not imported

---
 python/virgo/database/make_dtrees_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/database/make_dtrees_table.py b/python/virgo/database/make_dtrees_table.py
index 994165b..2356e0c 100644
--- a/python/virgo/database/make_dtrees_table.py
+++ b/python/virgo/database/make_dtrees_table.py
@@ -5,6 +5,7 @@
 
 import collections
 import io
+import re
 
 import numpy as np
 import h5py
-- 
2.43.0


From 186512d6d9d1322f127f259db073bf14f95aa0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:17 +0000
Subject: [PATCH 28/52] fix: PartialFormatter replaced missing fields with a
 conversion and failed for their attributes and elements

---
 python/virgo/util/partial_formatter.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/python/virgo/util/partial_formatter.py b/python/virgo/util/partial_formatter.py
index f09183f..af842bb 100644
--- a/python/virgo/util/partial_formatter.py
+++ b/python/virgo/util/partial_formatter.py
@@ -1,6 +1,7 @@
 #!/bin/env python
 
 import string
+import _string
 
 class FormatKey:
     def __init__(self, key):
@@ -44,6 +45,22 @@ class PartialFormatter(string.Formatter):
             # Otherwise return the value
             return kwargs[key]
 
+    def get_field(self, field_name, args, kwargs):
+        # Attributes and elements of a value which isn't being substituted
+        # stay in the field name
+        first, _ = _string.formatter_field_name_split(field_name)
+        if isinstance(self.get_value(first, args, kwargs), FormatKey):
+            return FormatKey(field_name), first
+        return super().get_field(field_name, args, kwargs)
+
+    def convert_field(self, value, conversion):
+        if isinstance(value, FormatKey):
+            # Leave the conversion in place too
+            if conversion is not None:
+                value = FormatKey(f"{value.key}!{conversion}")
+            return value
+        return super().convert_field(value, conversion)
+
     def format_field(self, value, format_spec):
         if isinstance(value, FormatKey):
             # We're not substituting anything in here
-- 
2.43.0


From 8d8ba92f38c2ba335f47cc41816c5524eaba7561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:17 +0000
Subject: [PATCH 29/52] fix: eagle_filename() found no files in directories
 with glob characters in their name

---
 python/virgo/sims/eagle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/sims/eagle.py b/python/virgo/sims/eagle.py
index b3c4586..3b1bd14 100644
--- a/python/virgo/sims/eagle.py
+++ b/python/virgo/sims/eagle.py
@@ -31,7 +31,7 @@ def eagle_filename(basedir, basename, isnap, ifile, cache={}):
     else:
         # Don't know the redshift label, so need to access filesystem with glob
         pattern = ("%s/%s_%03d_z???p???/%s_%03d_z???p???.%d.hdf5" % 
-                   (basedir, dir_name, isnap, basename, isnap, ifile))
+                   (glob.escape(basedir), dir_name, isnap, basename, isnap, ifile))
         fname = glob.glob(pattern)
         if len(fname) != 1:
             raise IOError("Unable to find single file matching %s" % pattern)
-- 
2.43.0


From 43412968fc6ec16484287dadc7b262e5e1d526d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 30/52] fix: Fortran wrapper wrote only the first two
 dimensions of 7D integer arrays

---
 fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
index f5c495b..5e131b3 100644
--- a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
@@ -54,7 +54,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer4_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
@@ -130,7 +130,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer8_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
-- 
2.43.0


From 1ae6155f5a322481a85b5189a05f72826bd5b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 31/52] fix: Fortran wrapper returned the old contents when
 reading an overwritten dataset again

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index b677eff..8ab9087 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -127,6 +127,11 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
         ! If the dataset exists but we have overwrite = .true.,
         ! delete the dataset
         call h5dclose_f(dset_id, hdf_err)
+        ! read_data() may have left the old dataset open
+        if(open_dset)then
+           open_dset = .false.
+           call h5dclose_f(open_dset_id, hdf_err)
+        endif
         call h5gunlink_f(file_id(ifile),name,hdf_err)
         dset_opened = .false.
      endif
-- 
2.43.0


From a5a1699641a683a1045870135c1682bcf53d556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 32/52] fix: Fortran wrapper created extensible datasets if
 extensible=.false.

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 8ab9087..9c1897e 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -77,7 +77,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   endif
   if(present(szip))szip_on = szip
   extensible_on = .false.
-  if(present(extensible))extensible_on = .true.
+  if(present(extensible))extensible_on = extensible
 
   if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
        'Invalid file handle in write_data',name=name)
-- 
2.43.0


From 40bc61e5d955d4832290cda9f1ad4dd5c9d9118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 33/52] fix: hdf5_list_attributes always failed with HDF5 1.10

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 9363edf..d70dd86 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -968,7 +968,8 @@ contains
     ! Get the names of the attributes
     if(present(attrib_names))then
        do i = 1, nattribs, 1
-          call h5aopen_idx_f(loc_id, i-1, attr_id, hdf_err)
+          call h5aopen_by_idx_f(loc_id, ".", H5_INDEX_NAME_F, H5_ITER_INC_F, &
+               int(i-1,kind=hsize_t), attr_id, hdf_err)
           if(hdf_err.ne.0) call hdf5_abort( &
                'Unable to open attribute in list_attributes()!', &
                name=name,fname=fname_table(ifile))
-- 
2.43.0


From 0c565f72f6827ea21d85cae86ab57aa716e96753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 34/52] fix: hdf5_create_group overflowed an array for more
 than 10 levels and truncated names at 256 characters

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index d70dd86..e526058 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -726,12 +726,9 @@ contains
     integer          :: ifile
     character(len=*) :: name
     character, parameter            :: slash='/'
-    integer, parameter              :: MAX_NEST = 10
-    integer(hid_t)                  :: id_chain(MAX_NEST)
+    integer(hid_t)                  :: id_chain(len(name)+1)
     integer(hid_t)                  :: group_id, loc_id
-    integer, parameter              :: LEN_STR = 256
-
-    character(len=LEN_STR)          :: thestring,currentgroup
+    character(len=len(name)+1)      :: thestring,currentgroup
     integer          :: i,n_nest, starti, endi, hdf_err
 
     if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
@@ -745,7 +742,7 @@ contains
     i = index(thestring,slash)
     if (i .eq. 1) then
        !strip leading slash
-       thestring = thestring(2:LEN_STR)
+       thestring = thestring(2:)
        i = index(thestring,slash)
     endif
 
@@ -767,7 +764,7 @@ contains
        currentgroup = thestring(1:i-1)
        
        !Cut the current group from the start of the string:
-       thestring = thestring(i+1:LEN_STR)
+       thestring = thestring(i+1:)
        
        !Update position of the first /
        i = index(thestring,slash)
-- 
2.43.0


From 7dd5e047c6d02cf586417cdd3526c7a6dc6ed0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 35/52] fix: Fortran wrapper could not create extensible or
 compressed datasets with no elements or read empty 1D datasets

---
 fortran/hdf5_wrapper/src/read_dataset.inc  | 2 +-
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 8ae55e6..2655f68 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -203,7 +203,7 @@
          name=name,fname=fname_table(ifile))
 
     ! Select the part of this dataspace that will hold the data
-    if(eff_array_rank.gt.0)then
+    if(file_rank.gt.0)then
        hs_start(1:file_rank) = 0
        hs_count(1:file_rank) = read_dims(1:file_rank)
        call h5sselect_hyperslab_f(memspace_id, H5S_SELECT_SET_F, &
diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 9c1897e..30f2b05 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -204,7 +204,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
      call h5pcreate_f(H5P_DATASET_CREATE_F, prop_id, hdf_err) 
      ! Decide on chunk size based on the initial size of the dataset
      do i = 1, file_rank, 1
-        nchunk(i) = min(file_dims(i),nchunk_max(i))
+        nchunk(i) = max(min(file_dims(i),int(nchunk_max(i),kind=hsize_t)),1_hsize_t)
      end do
      ! Only use chunking if we need it (saves space for small datasets)
      if(gzip_level.gt.0.or.szip_on.or.extensible_on) &
-- 
2.43.0


From 6e58499fe21c3c40eb5a23fc00f445c43d0b5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 36/52] fix: Fortran wrapper refused to read or write a single
 element or row of an array which is larger

---
 fortran/hdf5_wrapper/src/read_dataset.inc  | 19 +++++++++++++--
 fortran/hdf5_wrapper/src/write_dataset.inc | 28 ++++++++++++++++++----
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 2655f68..833606d 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -44,6 +44,7 @@
 
     ! Loop indexes etc
     integer :: i, j
+    logical :: same_rank
 
     ! Check inputs
     if(present(start).and.(.not.present(count)))call hdf5_abort( &
@@ -166,10 +167,24 @@
        endif
     end do
 
-    ! All dimensions with size>1 have to be at least as big
+    ! If the array has the same rank as the dataset and the data fits then
+    ! all dimensions correspond, including those with size 1
+    same_rank = (array_rank.eq.file_rank)
+    do i = 1, array_rank, 1
+       if(same_rank)same_rank = (array_dims(i).ge.read_dims(i))
+    end do
+
+    ! Otherwise all dimensions with size>1 have to be at least as big
     ! in the array as in the file dataset, otherwise the data
     ! isn't going to fit.
-    if(eff_array_rank.ne.eff_read_rank)then
+    if(same_rank)then
+       eff_array_rank = array_rank
+       do i = 1, array_rank, 1
+          eff_array_dims(i) = array_dims(i)
+          eff_read_dims(i) = read_dims(i)
+          read_dim_idx(i) = i
+       end do
+    else if(eff_array_rank.ne.eff_read_rank)then
        write(0,*)'Array rank (omitting dimensions with size=1) : ',eff_array_rank
        write(0,*)'Data  rank (omitting dimensions with size=1) : ',eff_read_rank
        call hdf5_abort( &
diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 30f2b05..982372b 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -24,6 +24,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   integer, dimension(:), optional :: start, count, initial_size
   ! Loop indices etc
   integer :: i, j
+  logical :: same_rank
   ! Gzip/szip
   logical :: gzip_shuffle, szip_on
   integer :: gzip_level
@@ -348,11 +349,28 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   end do
   eff_array_rank = j
 
-  ! Check dataset and array have the same rank, ignoring dimensions of size 1
-  if(eff_array_rank.ne.eff_select_rank)call hdf5_abort( &
-       'The supplied data does not have the same number'//&
-       ' of dimensions as the dataset to write',&
-       name=name,fname=fname_table(ifile))    
+  ! If the array has the same rank as the dataset and is big enough then
+  ! all dimensions correspond, including those with size 1
+  same_rank = (array_rank.eq.file_rank)
+  do i = 1, array_rank, 1
+     if(same_rank)same_rank = (array_dims(i).ge.select_dims(i))
+  end do
+
+  ! Otherwise check dataset and array have the same rank, ignoring
+  ! dimensions of size 1
+  if(same_rank)then
+     eff_array_rank = array_rank
+     do i = 1, array_rank, 1
+        eff_array_dims(i) = array_dims(i)
+        eff_select_dims(i) = select_dims(i)
+        eff_select_idx(i) = i
+     end do
+  else if(eff_array_rank.ne.eff_select_rank)then
+     call hdf5_abort( &
+          'The supplied data does not have the same number'//&
+          ' of dimensions as the dataset to write',&
+          name=name,fname=fname_table(ifile))
+  endif
 
   ! Check that the array contains enough data
   do i = 1, eff_array_rank, 1
-- 
2.43.0


From b970e40944b0dd0229a614a8950e0a194696ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:24 +0000
Subject: [PATCH 37/52] fix: Fortran wrapper could not access attributes of the
 root group and truncated long attribute paths

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90    | 8 ++++----
 fortran/hdf5_wrapper/src/read_attribute.inc  | 7 +++----
 fortran/hdf5_wrapper/src/write_attribute.inc | 7 +++----
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index e526058..4176894 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -510,7 +510,7 @@ contains
     integer(hsize_t), dimension(10) :: hdf_dims,hdf_maxdims
     logical :: isattribute, isgroup
     integer :: nslash
-    character(len=200) :: loc_name,attr_name
+    character(len=len(name)) :: loc_name,attr_name
 
     if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
          'Invalid file handle in get_dimensions',name=name)
@@ -532,7 +532,7 @@ contains
        if(nslash.eq.0)call hdf5_abort( &
             'Invalid dataset/attribute name in get_dimensions()!', &
             fname=fname_table(ifile),name=name)
-       loc_name=name(1:nslash-1)
+       loc_name=name(1:max(nslash-1,1))
        attr_name=name(nslash+1:len_trim(name))
 
        ! Try to open loc_name as a group then as a dataset
@@ -604,7 +604,7 @@ contains
     integer :: hdf_err, hdf_err2
     logical :: isattribute, isgroup
     integer :: nslash
-    character(len=200) :: loc_name,attr_name
+    character(len=len(name)) :: loc_name,attr_name
     integer, intent(out) :: size
     integer(kind=size_t) :: h5size
 
@@ -628,7 +628,7 @@ contains
        if(nslash.eq.0)call hdf5_abort( &
             'Invalid dataset/attribute name in get_type()!', &
             fname=fname_table(ifile),name=name)
-       loc_name=name(1:nslash-1)
+       loc_name=name(1:max(nslash-1,1))
        attr_name=name(nslash+1:len_trim(name))
 
        ! Try to open loc_name as a group then as a dataset
diff --git a/fortran/hdf5_wrapper/src/read_attribute.inc b/fortran/hdf5_wrapper/src/read_attribute.inc
index 5a69943..ee41f26 100644
--- a/fortran/hdf5_wrapper/src/read_attribute.inc
+++ b/fortran/hdf5_wrapper/src/read_attribute.inc
@@ -4,7 +4,6 @@ subroutine SUB_NAME (ifile,name,arr)
   ! preprocessor variables have been set - see write_attribute_preprocessor.F90.
   !
       implicit none
-      integer, parameter              :: LEN_STR = 256
       integer, parameter              :: MAX_NEST = 10
       character(len=*), intent(in)    :: name 
       integer,intent(in)              :: ifile
@@ -17,8 +16,8 @@ subroutine SUB_NAME (ifile,name,arr)
 #else
       ARR_TYPE                        :: arr
 #endif
-      character(len=LEN_STR)          :: loc_name
-      character(len=LEN_STR)          :: attr_name
+      character(len=len(name))        :: loc_name
+      character(len=len(name))        :: attr_name
       integer                         :: nslash
       integer                         :: itype
 #ifndef SCALAR
@@ -58,7 +57,7 @@ subroutine SUB_NAME (ifile,name,arr)
               name=name,fname=fname_table(ifile))
       endif
       
-      loc_name=name(1:nslash-1)
+      loc_name=name(1:max(nslash-1,1))
       attr_name=name(nslash+1:len_trim(name))
       ! Try to open loc_name as a group and as a dataset
       itype=1
diff --git a/fortran/hdf5_wrapper/src/write_attribute.inc b/fortran/hdf5_wrapper/src/write_attribute.inc
index 0b66709..d0f0487 100644
--- a/fortran/hdf5_wrapper/src/write_attribute.inc
+++ b/fortran/hdf5_wrapper/src/write_attribute.inc
@@ -5,7 +5,6 @@ subroutine SUB_NAME (ifile,name,arr,overwrite)
   ! write_attribute_preprocessor.F90.
   !
       implicit none
-      integer, parameter              :: LEN_STR = 256
       integer, parameter              :: MAX_NEST = 10
       character(len=*), intent(in)    :: name 
       integer,intent(in)              :: ifile
@@ -18,8 +17,8 @@ subroutine SUB_NAME (ifile,name,arr,overwrite)
 #else
       ARR_TYPE                        :: arr
 #endif
-      character(len=LEN_STR)          :: loc_name
-      character(len=LEN_STR)          :: attr_name
+      character(len=len(name))        :: loc_name
+      character(len=len(name))        :: attr_name
       integer                         :: nslash
       integer                         :: itype
       logical, optional               :: overwrite
@@ -53,7 +52,7 @@ subroutine SUB_NAME (ifile,name,arr,overwrite)
               name=name,fname=fname_table(ifile))
       endif
       
-      loc_name=name(1:nslash-1)
+      loc_name=name(1:max(nslash-1,1))
       attr_name=name(nslash+1:len_trim(name))
       ! Try to open loc_name as a group and as a dataset
       itype=1
-- 
2.43.0


From 5fcbb483edc30a7623b344d9acac5e5782eedfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 38/52] fix: Fortran wrapper tested an undefined status if HDF5
 was initialised by the caller

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 4176894..3167a87 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -304,6 +304,7 @@ contains
     if(needInit) then
        needInit = .false.
        fname_table(1:nfilemax) = '*'
+       hdf_err = 0
        if(do_open)call h5open_f(hdf_err)
        if (HDF_ERROR_SUPPRESS .eq. 0) then
           call h5eset_auto_f(1, hdf_err2)
@@ -395,6 +396,7 @@ contains
     if(needInit)then
        needInit=.false.
        fname_table(1:nfilemax) = '*'
+       hdf_err = 0
        if(do_open)call h5open_f(hdf_err)
        if (HDF_ERROR_SUPPRESS .gt. 0) then
           call h5eset_auto_f(1, hdf_err2)
-- 
2.43.0


From 8a1b5d292ee8cdca0dcb9c0e2df518a0c2c1b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 39/52] fix: Fortran wrapper could read a dataset of another
 file which had the same name when it was opened

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 5 +++--
 fortran/hdf5_wrapper/src/read_dataset.inc | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 3167a87..ba11181 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -59,7 +59,8 @@ module hdf5_wrapper
   ! Information about the currently open dataset
   logical             :: open_dset
   integer(hid_t)      :: open_dset_id
-  character(len=1000) :: open_file_name, open_dset_name
+  integer             :: open_dset_ifile
+  character(len=1000) :: open_dset_name
 
   ! WHether to automatically open/close HDF5
   logical, private :: do_open = .true.
@@ -455,7 +456,7 @@ contains
     endif
 
     ! If we left a dataset open, close it
-    if(open_dset.and.fname_table(ifile).eq.open_file_name)then
+    if(open_dset.and.ifile.eq.open_dset_ifile)then
        call h5dclose_f(open_dset_id,   hdf_err)
        open_dset = .false.
     endif
diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 833606d..e1baab0 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -69,7 +69,7 @@
 #endif
 
     ! Open datset and get size. Dataset may already be open
-    if(trim(adjustl(fname_table(ifile))).ne.trim(adjustl(open_file_name)) &
+    if(ifile.ne.open_dset_ifile &
          .or.trim(adjustl(name)).ne.trim(adjustl(open_dset_name)))then
        if(open_dset)then
           open_dset = .false.
@@ -83,7 +83,7 @@
        open_dset_id = dset_id
        open_dset = .true.
        open_dset_name = trim(name)
-       open_file_name = trim(fname_table(ifile))
+       open_dset_ifile = ifile
     endif
 
     if (hdf_err .lt. 0) then
-- 
2.43.0


From d3d46e89032e609454b3ef4afd754663c371747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 40/52] fix: hash_dirs_mpi.py could not run under Python 3

---
 consistency_check/hash/hash_dirs_mpi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index 79169f9..e521589 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -84,7 +84,7 @@ class DirectoryList:
         if hashes is not None:
             self.all_hashes.update(hashes)
             if self.con is not None:
-                for name, val in hashes.iteritems():
+                for name, val in hashes.items():
                     # Don't store anything if file could not be read or hash was read from database 
                     if name not in self.cache and val is not None:
                         self.con.execute("insert into hashes values(?,?,?,?)", (self.basedir, name, self.hash_type, val))
@@ -145,7 +145,7 @@ def hash_file(fname, hash_type):
         # Read next block of data
         data = f.read(buffer_size)
         # Update hash
-        if data != "":
+        if data != b"":
             m.update(data)
         else:
             break
@@ -202,11 +202,11 @@ def hash_dir(basedir, dirpath, dirnames, filenames,
                     attr = xattr(full_name)
                     attr["user.checksum."+hash_type] = this_hash
                 if cached:
-                    print "Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
                 else:
-                    print "Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
         else:
-            print "Task %4d : skipping output file %s" % (comm_rank, rel_path)
+            print("Task %4d : skipping output file %s" % (comm_rank, rel_path))
 
     # Get sorted list of names
     sorted_names = sorted(hashes.keys())
-- 
2.43.0


From d44bcd22593959614ff9c42b4cf41cfc31592b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 41/52] fix: file presence checks could not run under Python 3

---
 .../eagle/check_eagle_file_presence.py        | 18 ++++++++---------
 .../p-gadget3/check_pgadget3_file_presence.py | 20 +++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index a34e85c..8f563f7 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -64,13 +64,13 @@ def check_dir(basedir, dirbase, filebase, nfiles_attr, isnap):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -130,14 +130,14 @@ def check_eagle_run(basedir, num_snaps, num_snips):
             count_expected[filebase] += 1
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
-                                                                count_missing[outtype],
-                                                                count_expected[outtype])
+            print("%30s - %d of %d directories not complete" % (outtype, 
+                                                                 count_missing[outtype],
+                                                                 count_expected[outtype]))
 
 if __name__ == "__main__":
 
diff --git a/consistency_check/p-gadget3/check_pgadget3_file_presence.py b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
index 65ddcce..643a6e4 100644
--- a/consistency_check/p-gadget3/check_pgadget3_file_presence.py
+++ b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
@@ -48,13 +48,13 @@ def check_dir(basedir, dirbase, filebase, isnap, get_nfiles_func):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -100,14 +100,14 @@ def check_pgadget3_run(basedir, snapbase, max_num, first_num, step):
    
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
-                                                                count_missing[outtype],
-                                                                count_expected[outtype])
+            print("%30s - %d of %d directories not complete" % (outtype, 
+                                                                 count_missing[outtype],
+                                                                 count_expected[outtype]))
 
 if __name__ == "__main__":
 
@@ -122,7 +122,7 @@ if __name__ == "__main__":
         first_num = 0
         step      = 1
     else:
-        print "Incorrect number of arguments!"
+        print("Incorrect number of arguments!")
         sys.exit(1)
 
     check_pgadget3_run(basedir, snapbase, max_num, first_num, step)
-- 
2.43.0


From ae2592c4e7cb8cc77f45d1c6f71da6bc49507dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 42/52] fix: Eagle file presence check found no files in
 directories with glob characters in their name

---
 consistency_check/eagle/check_eagle_file_presence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index 8f563f7..f40333c 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -7,7 +7,7 @@ import sys
 import os
 import numpy as np
 import h5py
-from glob import glob
+from glob import glob, escape
 from collections import defaultdict
 
 def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
@@ -21,7 +21,7 @@ def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
     if key in cache:
         zstring = cache[key]
     else:
-        pattern  = "%s/%s_%03d_z???p???" % (simdir, dirbase, isnap)
+        pattern  = "%s/%s_%03d_z???p???" % (escape(simdir), dirbase, isnap)
         dirnames = glob(pattern)
         if len(dirnames) == 0:
             raise IOError("Unable to find directory %s" % pattern)
-- 
2.43.0


From ab374ea2308434f48a399a1c4b9047c79661c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 43/52] fix: mpi_errchk did not abort if the exception could
 not be reported, so other ranks hung

---
 python/virgo/mpi/errchk.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/virgo/mpi/errchk.py b/python/virgo/mpi/errchk.py
index 312fd06..32a97ed 100644
--- a/python/virgo/mpi/errchk.py
+++ b/python/virgo/mpi/errchk.py
@@ -15,11 +15,14 @@ def mpi_errchk(func):
             return func(*args, **kwargs)
         except (Exception, KeyboardInterrupt) as e:
             from mpi4py import MPI
-            sys.stderr.write("\n\n*** EXCEPTION ***\n"+str(e)+" on rank "+str(MPI.COMM_WORLD.Get_rank())+"\n\n")
-            traceback.print_exc(file=sys.stdout)
-            sys.stderr.write("\n\n")
-            sys.stderr.flush()
-            MPI.COMM_WORLD.Abort(1)
+            # Abort even if the error can't be reported, e.g. because of encodings or lack of disk space
+            try:
+                sys.stderr.write("\n\n*** EXCEPTION ***\n"+str(e)+" on rank "+str(MPI.COMM_WORLD.Get_rank())+"\n\n")
+                traceback.print_exc(file=sys.stdout)
+                sys.stderr.write("\n\n")
+                sys.stderr.flush()
+            finally:
+                MPI.COMM_WORLD.Abort(1)
     return func_wrapper
 
 
-- 
2.43.0


From bc437a2f4d89c43742e77acd3247cf9431b9c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 44/52] fix: skip_bytes() with an unsigned 64 bit number made
 the offset a float, so that nothing more could be read

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index dfb2289..d398496 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -461,7 +461,7 @@ class BinaryFile(BinaryGroup):
         self._add_block(name, dtype, shape, is_attr=True)
 
     def skip_bytes(self, n):
-        self.offset += n
+        self.offset += int(n)
 
     def read_and_skip(self, dtype, shape=()):
         tmp = BinaryDataset(self.fname, dtype, self.offset, shape, None)
-- 
2.43.0


From 89c2715a29d8354bf74e6ff5e26780efd85c18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 45/52] fix: match() of int64 with uint64 values above 2**53

searchsorted() converts the two arrays to float64 in this case, so elements
of arr1 which are present in arr2 could be reported as missing. Search
with values of the type of arr2 and compare with the original values.
---
 python/virgo/util/match.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/match.py b/python/virgo/util/match.py
index b811c7a..05e490a 100644
--- a/python/virgo/util/match.py
+++ b/python/virgo/util/match.py
@@ -45,8 +45,14 @@ def match(arr1, arr2, arr2_sorted=False, arr2_index=None):
             idx = arr2_index
             tmp2 = arr2_n[arr2_index]
 
-    # Find where elements of arr1 are in arr2
-    ptr  = searchsorted(tmp2, tmp1)
+    # Find where elements of arr1 are in arr2. If the arrays have different
+    # integer types then searchsorted would convert both to a common type,
+    # which is float64 if we have int64 and uint64. Values which change in
+    # the conversion to the type of arr2 can't match.
+    if tmp1.dtype != tmp2.dtype and tmp1.dtype.kind in "iu" and tmp2.dtype.kind in "iu":
+        ptr  = searchsorted(tmp2, tmp1.astype(tmp2.dtype))
+    else:
+        ptr  = searchsorted(tmp2, tmp1)
 
     # Make sure all elements in ptr are valid indexes into tmp2
     # (any out of range entries won't match so they'll get set to -1
-- 
2.43.0


From 424c5f4b47cdc337fe64921bf0ff74e3de83dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 46/52] fix: parallel_match() of int64 with uint64 values above
 2**53

searchsorted() converts the two arrays to float64 in this case, so elements
of arr1 which are present in arr2 could be reported as missing. Convert
arr1 to the type of arr2 and discard matches to values which changed.
---
 python/virgo/mpi/parallel_sort.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 103969c..1e87528 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -776,6 +776,17 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
         print("Can only match elements between 1D arrays!")
         comm.Abort()
 
+    # If the arrays have different integer types then searchsorted would convert
+    # both to a common type, which is float64 if we have int64 and uint64. Use
+    # the type of arr2 throughout. Values which change in the conversion to the
+    # type of arr2 can't match.
+    no_match = None
+    if arr1.dtype != arr2.dtype and arr1.dtype.kind in "iu" and arr2.dtype.kind in "iu":
+        arr1_orig = arr1
+        arr1 = arr1_orig.astype(arr2.dtype)
+        no_match = (arr1 != arr1_orig)
+        del arr1_orig
+
     # If arr1 has no elements we just return an empty index array
     if comm.allreduce(arr1.shape[0]) == 0:
         return np.ndarray(0, dtype=index_dtype)
@@ -874,6 +885,10 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
     del index_out
     del idx
 
+    # Discard matches to values which were changed by the type conversion
+    if no_match is not None:
+        index[no_match] = -1
+
     return index
 
 
-- 
2.43.0


From 24f403124c07768480ed22b7276843789a8da343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 47/52] fix: parallel_bincount() with boolean or small integer
 weights

The sums were evaluated and returned using the type of the weights, so
boolean weights gave a boolean result and e.g. 8 bit weights overflowed.
---
 python/virgo/mpi/parallel_sort.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 1e87528..d660fd0 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1130,7 +1130,9 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
     if result is not None:
         result_dtype = result.dtype
     elif weights is not None:
-        result_dtype = weights.dtype
+        # Type used to sum the weights: boolean and small integer weights
+        # are added as larger integers
+        result_dtype = np.sum(weights[:0]).dtype
     else:
         result_dtype = index_dtype
 
@@ -1164,11 +1166,13 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
     x = x[order]
     weights = weights[order]
         
-    # Now combine local elements
+    # Now combine local elements. Integer sums are evaluated using the result type
+    # because the type of the weights might be too small.
+    sum_dtype = result_dtype if weights.dtype.kind in "biu" else weights.dtype
     unique_x, unique_indices, unique_counts = np.unique(x, return_index=True, return_counts=True)
-    unique_weights = np.empty_like(weights, shape=unique_x.shape)
+    unique_weights = np.empty_like(weights, dtype=sum_dtype, shape=unique_x.shape)
     for i, (offset, length) in enumerate(zip(unique_indices, unique_counts)):
-        unique_weights[i] = np.sum(weights[offset:offset+length])
+        unique_weights[i] = np.sum(weights[offset:offset+length], dtype=sum_dtype)
     
     # Accumulate weights over all MPI ranks
     reduce_elements(result, unique_weights, unique_x, op=np.add, comm=comm)
-- 
2.43.0


From 2f35fbb88e5ced1f4f6845e1f2926842cabed68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 48/52] fix: BinaryFile with a relative name read another file
 after a change of directory

Files are opened when they are first read and are identified by name in the
cache of open files, so opening a file of the same relative name in another
directory returned data from the first one.
---
 python/virgo/util/read_binary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index d398496..6be2723 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -428,7 +428,9 @@ class BinaryFile(BinaryGroup):
     """
     def __init__(self, fname):
         BinaryGroup.__init__(self, "")
-        self.fname = fname
+        # Files are opened when they're first read and are identified by name in
+        # the cache, so names need to be valid in any working directory
+        self.fname = os.path.abspath(fname)
         self.offset = 0
         self.endian = "="
         self.all_blocks = []
-- 
2.43.0


From 561b71a3221525b93ffe037ea5231150a1dc781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 49/52] fix: hash() and write_binary() of structured types with
 padding used undefined bytes

---
 python/virgo/util/read_binary.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 6be2723..ec46b5a 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -50,6 +50,15 @@ def need_byteswap(data_endian, dtype):
     return memory_endian != data_endian
 
 
+def _copy_fields(dest, src):
+    """Copy array src to dest leaving any padding bytes in dest unchanged"""
+    if dest.dtype.names is None:
+        dest[...] = src
+    else:
+        for name in dest.dtype.names:
+            _copy_fields(dest[name], src[name])
+
+
 def _split_path(path):
     """
     Split a path at the first slash (excluding leading slashes), and return
@@ -365,6 +374,21 @@ class BinaryDataset:
         # Return the result
         return array
 
+    def _add_padding(self, data):
+        """
+        Given the full contents of this dataset in some byte order, return
+        the same data with any padding bytes in a structured type set to the
+        values in the file. Numpy doesn't copy these, so they're undefined
+        in data.
+        """
+        if data.dtype.fields is None or data.size == 0:
+            return data
+        self._mmap_file()
+        buf = bytearray(self.file.mmap[self.offset:self.offset+self.nbytes])
+        result = np.ndarray(shape=data.shape, dtype=data.dtype, buffer=buf)
+        _copy_fields(result, data)
+        return result
+
     def __array__(self, dtype=None):
         if dtype is None:
             return self[...]
@@ -539,6 +563,8 @@ class BinaryFile(BinaryGroup):
             # Byte swap if necessary
             if endian is not None:
                 data = data.astype(data.dtype.newbyteorder(endian))
+            # Copy any padding in structured types too
+            data = block._add_padding(data)
             # Write the block
             outfile.seek(block.offset)
             outfile.write(data.data)
@@ -570,6 +596,7 @@ class BinaryFile(BinaryGroup):
         for block in blocks:
             data = block[...]
             data = data.astype(data.dtype.newbyteorder("<"))
+            data = block._add_padding(data)
             file_hash.update(data)
         return file_hash.hexdigest()
 
-- 
2.43.0


From 9d24dcd9b84ff2ada7105641db65c992321aa75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 50/52] fix: parallel_sort() of arrays with more than one NaN
 failed or hung

---
 python/virgo/mpi/parallel_sort.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index d660fd0..e9034e4 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -595,9 +595,7 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
         if arr.shape[0] > 0:
             first_ind  = np.searchsorted(arr, val, side='left')
             last_ind   = np.searchsorted(arr, val, side='right') - 1
-            nval_local = last_ind - first_ind + 1
-            first_ind[first_ind >= len(arr)] = len(arr) - 1
-            nval_local[arr[first_ind] != val] = 0 
+            nval_local = last_ind - first_ind + 1 # zero if there are none
         else:
             nval_local = np.zeros(len(val), dtype=index_dtype)
         nval_local = np.asarray(nval_local, dtype=index_dtype)
@@ -646,9 +644,9 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
                     # processor
                     last_to_send = arr.shape[0] - 1
                 else:
-                    if arr[val_first_index_arr[rank+1]] != val[rank+1]:
-                        # All remaining instances of this value go to later
-                        # processors
+                    if val_last_index < val_first_index:
+                        # We have no instances of this value here, so only
+                        # elements with lower values go to this processor
                         last_to_send = val_first_index - 1
                     else:
                         # In this case element val_first_index is the first
-- 
2.43.0


From dea6c418d99cb012ba38405d77adfa1f2ce43750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 51/52] fix: parallel_match() found no matches if the second
 array contains NaN

---
 python/virgo/mpi/parallel_sort.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index e9034e4..d6b8236 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -812,8 +812,9 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
     min_on_task = np.ndarray(comm_size, dtype=arr2.dtype)
     max_on_task = np.ndarray(comm_size, dtype=arr2.dtype)
     if arr2_ordered.shape[0] > 0:
-        min_val = np.amin(arr2_ordered)
-        max_val = np.amax(arr2_ordered)
+        # The array is sorted, with any NaNs at the end
+        min_val = arr2_ordered[0]
+        max_val = arr2_ordered[-1]
     else:
         # If there are no values set min and max to zero
         min_val = np.asarray(0, dtype=arr2_ordered.dtype)
-- 
2.43.0


From f0f29873af93cec98feaa15eeee69d2d4803bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 52/52] fix: parallel_unique() returned NaN once per rank

---
 python/virgo/mpi/parallel_sort.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index d6b8236..5a11c18 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -953,14 +953,18 @@ def parallel_unique(arr, comm=None, arr_sorted=False, return_counts=False,
         all_last_unique = mycomm.allgather(local_unique[-1])
         all_last_counts = mycomm.allgather(local_count[-1])
 
+        # NaNs are considered to be equal, as in np.unique()
+        def equal(a, b):
+            return a == b or (a != a and b != b)
+
         # Accumulate counts from later ranks which have instances of our last unique value
         rank_nr = mycomm_rank + 1
-        while rank_nr < mycomm_size and all_first_unique[rank_nr] == all_last_unique[mycomm_rank]:
+        while rank_nr < mycomm_size and equal(all_first_unique[rank_nr], all_last_unique[mycomm_rank]):
             local_count[-1] += all_first_counts[rank_nr]
             rank_nr += 1
 
         # If our first unique value exists on the previous rank, zero out our count for this value
-        if mycomm_rank > 0 and all_first_unique[mycomm_rank] == all_last_unique[mycomm_rank-1]:
+        if mycomm_rank > 0 and equal(all_first_unique[mycomm_rank], all_last_unique[mycomm_rank-1]):
             local_count[0] = 0
             
         # Discard values with zero count
-- 
2.43.0

