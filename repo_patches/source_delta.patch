From cdb661c8880f58e28643f5b44d3ec363fb9fd960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 01/36] fix: keep track of row positions when permuting the
 conserved moments in front

---
 pylbm/scheme.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 5b2cff4..ed0bfe8 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -224,8 +224,12 @@ class Scheme:
 
     def _permute_consm_in_front(self):
         self.permutations = []
+        # current position of each row (the previous swaps may have moved it)
+        rows = list(range(self.stencil.nv_ptr[-1]))
         for ic, c in enumerate(self.consm.values()):
-            self.permutations.append([ic, c])
+            position = rows.index(c)
+            self.permutations.append([ic, position])
+            rows[ic], rows[position] = rows[position], rows[ic]
 
         for p in self.permutations:
             self.EQ.row_swap(p[0], p[1])
-- 
2.43.0


From 3473b9735bc2828716295382bcbfd947abc37bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 02/36] fix: do not permute the rows of the moment matrix given
 by the user

---
 pylbm/scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index ed0bfe8..ea19e41 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -159,7 +159,7 @@ class Scheme:
 
         # TODO: add the possibility to have vectorial schemes when M matrix is defined
         if len(scheme) == 1 and "M" in scheme[0]:
-            self.M = scheme[0]["M"]
+            self.M = sp.Matrix(scheme[0]["M"])
             self.invM = self.M.inv()
             self.Tu = sp.eye(*self.M.shape)
             self.Tmu = sp.eye(*self.M.shape)
-- 
2.43.0


From 72789b0964d3b442c604c390e52ed701d33dd7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 03/36] fix: refresh the other moments before a moment is
 written through m_halo

---
 pylbm/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 3cec720..08c894b 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -209,7 +209,9 @@ class Simulation:
 
     @m_halo.setter
     def m_halo(self, i, value):
-        self._update_m = False
+        if self._update_m:
+            self._update_m = False
+            self.f2m()
         self.container.m[i] = value
 
     @utils.itemproperty
-- 
2.43.0


From c4612d5189ecb177f1276078af6809c626c267e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 04/36] fix: bind Z to the third coordinate

---
 pylbm/algorithm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 559b090..de070b9 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -645,7 +645,7 @@ class BaseAlgorithm:
             Y = simulation.domain.coords[1]
         if dim > 2:
             nz = mm.nspace[2]
-            Z = simulation.domain.coords[1]
+            Z = simulation.domain.coords[2]
 
         if f_user:
             f = f_user.array
-- 
2.43.0


From 8c092030c7e24a6b23d985572bd8c50faed09ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 05/36] fix: stop the timing of a monitored function that
 raises

---
 pylbm/monitoring.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylbm/monitoring.py b/pylbm/monitoring.py
index 4ddc669..434d9ff 100644
--- a/pylbm/monitoring.py
+++ b/pylbm/monitoring.py
@@ -124,8 +124,9 @@ def monitor(f):
     def wrapper(*args, **kwds):
         Monitor.register(f)
         Monitor.start_timing(f)
-        output = f(*args, **kwds)
-        Monitor.stop_timing(f)
-        return output
+        try:
+            return f(*args, **kwds)
+        finally:
+            Monitor.stop_timing(f)
 
     return wrapper
-- 
2.43.0


From f87c0a42466a62858f5cced274606035c482f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 06/36] fix: index the arrays along x, y, z when the storage
 order permutes the spatial axes

---
 pylbm/algorithm/base.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index de070b9..5b52b80 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -188,6 +188,17 @@ class BaseAlgorithm:
             priority=self.sorder[1:],
         )
 
+    def _natural_order(self, space_index):
+        """
+        Return the list of Idx given by _get_space_idx_full or
+        _get_space_idx_inner (ordered with sorder) in the order x, y, z.
+        """
+        axes = sorted(range(self.dim), key=lambda i: self.sorder[1 + i])
+        output = [None] * self.dim
+        for axis, idx in zip(axes, space_index):
+            output[axis] = idx
+        return output
+
     def _get_indexed_on_range(self, name, space_index):
         """
         Return a SymPy matrix of indexed objects
@@ -212,7 +223,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._natural_order(space_index),
             velocities_index=range(self.ns),
             priority=self.sorder,
         )
@@ -243,7 +254,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._natural_order(space_index),
             velocities=velocities,
             priority=self.sorder,
         )
@@ -580,7 +591,9 @@ class BaseAlgorithm:
         if check_isfluid:
             valin = sp.Symbol("valin", real=True)
             in_or_out = indexed(
-                "in_or_out", [nx, ny, nz], space_index, priority=self.sorder[1:]
+                "in_or_out",
+                [nx, ny, nz][: self.dim],
+                self._natural_order(space_index),
             )
             loop = lambda x: For(space_index, If((Eq(in_or_out, valin), x)))
         else:
-- 
2.43.0


From 6beb0f66bfbace6be2bdcc568d04728cf635a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 07/36] fix: size the halo with the modulus of the velocities

---
 pylbm/stencil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index 38cb783..f5d7d79 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -716,7 +716,7 @@ class Stencil(list):
     def vmax(self):
         """the maximal velocity in norm for each spatial direction."""
         tmp = np.asarray([self.uvx, self.uvy, self.uvz])
-        return np.max(tmp[: self.dim], axis=1)
+        return np.max(np.abs(tmp[: self.dim]), axis=1)
 
     @property
     def vmin(self):
-- 
2.43.0


From 4806787aee03f3f78543f40d0434ec3c78864588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 08/36] fix: exchange the halos on the communicator of the
 topology

---
 pylbm/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/storage.py b/pylbm/storage.py
index 2cf7e47..d95d082 100644
--- a/pylbm/storage.py
+++ b/pylbm/storage.py
@@ -67,7 +67,7 @@ class Array:
         dtype=np.double,
         gpu_support=False,
     ):
-        self.comm = mpi.COMM_WORLD
+        self.comm = mpi.COMM_WORLD if mpi_topo is None else mpi_topo.cartcomm
         self.sorder = sorder
 
         self.gspace_size = gspace_size
-- 
2.43.0


From 00a73aa3cd0967b3284e8ce5d2bbeed550192345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:18 +0000
Subject: [PATCH 09/36] fix: a wall takes over from a periodic border at the
 corners of the box

---
 pylbm/domain.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index eae2ae4..a6749f9 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -479,9 +479,17 @@ class Domain:
         if self.compute_normal:
             norm_view = self.normal[tuple(phys_domain_vect)]
 
-        def new_indices(dvik, iuv, indices, dist_view):
+        def new_indices(dvik, iuv, indices, dist_view, flag_view, border):
             new_ind = copy.deepcopy(indices)
-            ind = np.where(dist_view[tuple(indices)] > dvik)
+            flags = flag_view[tuple(indices)]
+            mask = dist_view[tuple(indices)] > dvik
+            if border == -1:
+                # a periodic border never hides a wall...
+                mask = np.logical_and(mask, np.isin(flags, [self.valin, -1]))
+            else:
+                # ... and a wall always hides a periodic border
+                mask = np.logical_or(mask, flags == -1)
+            ind = np.where(mask)
             i = 1
             for j in range(self.dim):
                 if j != iuv:
@@ -502,7 +510,14 @@ class Domain:
                     for i in range(-vk):
                         indices[iuvel + 1] = i
                         dvik = -(i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(
+                            dvik,
+                            iuvel,
+                            indices,
+                            dist_view,
+                            flag_view,
+                            label[2 * iuvel],
+                        )
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel]
                         if self.compute_normal:
@@ -512,7 +527,14 @@ class Domain:
                     for i in range(vk):
                         indices[iuvel + 1] = -i - 1
                         dvik = (i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(
+                            dvik,
+                            iuvel,
+                            indices,
+                            dist_view,
+                            flag_view,
+                            label[2 * iuvel + 1],
+                        )
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel + 1]
                         if self.compute_normal:
-- 
2.43.0


From 06730874de2283c6db7f092b12fc617d96b4fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:33 +0000
Subject: [PATCH 10/36] fix: load the copy of the distribution functions in the
 Bouzidi anti bounce-back

---
 pylbm/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 52a67ec..69243a8 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -730,13 +730,13 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
             priority=sorder,
         )
         fload0 = indexed(
-            "f",
+            "fcopy",
             [ns, nx, ny, nz],
             index=[iload[0][idx, k] for k in range(dim + 1)],
             priority=sorder,
         )
         fload1 = indexed(
-            "f",
+            "fcopy",
             [ns, nx, ny, nz],
             index=[iload[1][idx, k] for k in range(dim + 1)],
             priority=sorder,
-- 
2.43.0


From 65fb6f1195d410231bb5767700a6b79385ed69aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 11/36] fix: weight the value prescribed by the Bouzidi
 conditions with the interpolation

---
 pylbm/boundary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 69243a8..8725100 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -565,6 +565,9 @@ class BouzidiBounceBack(BoundaryMethod):
         k = self.istore[:, 0]
         ksym = self.stencil.get_symmetric()[k]
         self.rhs[:] = self.feq[k, np.arange(k.size)] - self.feq[ksym, np.arange(k.size)]
+        # the prescribed value only weights the bounced part of the interpolation
+        mask = self.distance >= 0.5
+        self.rhs[mask] *= self.s[mask]
 
     # pylint: disable=too-many-locals
     def generate(self, sorder):
@@ -702,6 +705,9 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
         k = self.istore[:, 0]
         ksym = self.stencil.get_symmetric()[k]
         self.rhs[:] = self.feq[k, np.arange(k.size)] + self.feq[ksym, np.arange(k.size)]
+        # the prescribed value only weights the bounced part of the interpolation
+        mask = self.distance >= 0.5
+        self.rhs[mask] *= self.s[mask]
 
     # pylint: disable=too-many-locals
     def generate(self, sorder):
-- 
2.43.0


From 96d7d5092d2a26d1d1973d05c7395981de655a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 12/36] fix: gather the coordinates of sub-domains of different
 sizes

---
 pylbm/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 4570391..12cf5b3 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -103,7 +103,7 @@ class H5File:
             self.n[i] = comm.allreduce(coords[i].size, op=mpi.SUM)
             self.region.append(comm.gather(coords[i].size, root=0))
             self.global_size.append(np.sum(np.asarray(self.region[i])))
-            coords[i] = np.asarray(comm.gather(coords[i], root=0))
+            coords[i] = comm.gather(coords[i], root=0)
             comm.Free()
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-- 
2.43.0


From 7a683a21241cb3d9334960f41e68b8dec886cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 13/36] fix: send the components of a vector in double
 precision to the HDF5 writer

---
 pylbm/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 12cf5b3..304c314 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -245,7 +245,11 @@ class H5File:
             self.vectors[name] = self.h5filename + ":/" + name
         else:
             for i, data in enumerate(datas):
-                comm.Send([np.ascontiguousarray(data.T), mpi.DOUBLE], dest=0, tag=i)
+                comm.Send(
+                    [np.ascontiguousarray(data.T, dtype=np.double), mpi.DOUBLE],
+                    dest=0,
+                    tag=i,
+                )
 
     def save(self):
         """
-- 
2.43.0


From 078027b4f13e8beaecbeb2978ac67b264153bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 14/36] fix: announce the three components of the vectors in
 the XDMF file

---
 pylbm/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 304c314..9666973 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -321,7 +321,7 @@ class H5File:
                 </DataItem>
                 </Attribute>
                 """.format(
-                        k, " ".join(map(str, self.global_size[::-1])), self.dim, v
+                        k, " ".join(map(str, self.global_size[::-1])), 3, v
                     )
                 )
 
-- 
2.43.0


From c0f3301a9434819a5e8c60f46a459341eb47103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 15/36] fix: write the HDF5 file in the current directory when
 no path is given

---
 pylbm/hdf5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 9666973..465d2e3 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -40,10 +40,10 @@ class H5File:
         self.xdmf_file = None
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-            if not os.path.exists(path):
+            if path and not os.path.exists(path):
                 os.mkdir(path)
 
-            self.h5file = h5py.File(path + "/" + self.h5filename, "w")
+            self.h5file = h5py.File(os.path.join(path, self.h5filename), "w")
 
         # All the processes wait for the creation of the output directory
         mpi.COMM_WORLD.Barrier()
@@ -258,7 +258,9 @@ class H5File:
         comm = self.mpi_topo.cartcomm
         if comm.Get_rank() == 0:
             self.h5file.close()
-            self.xdmf_file = open(self.path + "/" + self.filename + ".xdmf", "w")
+            self.xdmf_file = open(
+                os.path.join(self.path, self.filename + ".xdmf"), "w"
+            )
             self.xdmf_file.write(
                 """<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
-- 
2.43.0


From 178a6f146387932c004bb7dc7f5f8375148d35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 16/36] fix: write the HDF5 files on the communicator of the
 topology

---
 pylbm/hdf5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 465d2e3..9da090b 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -39,14 +39,14 @@ class H5File:
         self.global_size = None
         self.xdmf_file = None
 
-        if mpi.COMM_WORLD.Get_rank() == 0:
+        if mpi_topo.cartcomm.Get_rank() == 0:
             if path and not os.path.exists(path):
                 os.mkdir(path)
 
             self.h5file = h5py.File(os.path.join(path, self.h5filename), "w")
 
         # All the processes wait for the creation of the output directory
-        mpi.COMM_WORLD.Barrier()
+        mpi_topo.cartcomm.Barrier()
 
         self.mpi_topo = mpi_topo
         self.scalars = {}
@@ -106,7 +106,7 @@ class H5File:
             coords[i] = comm.gather(coords[i], root=0)
             comm.Free()
 
-        if mpi.COMM_WORLD.Get_rank() == 0:
+        if self.mpi_topo.cartcomm.Get_rank() == 0:
             for i in range(len(self.region)):
                 self.region[i].insert(0, 0)
                 for j in range(1, len(self.region[i])):
-- 
2.43.0


From c9b9490aaf45330f03c7afb704b823c2b278ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 17/36] fix: shift the conserved moments with the relative
 velocity before the conversion to the distributions

---
 pylbm/algorithm/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 5b52b80..3d5a7d0 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -553,6 +553,9 @@ class BaseAlgorithm:
 
         code.append(self.relaxation_local(m, with_rel_velocity))
 
+        if with_rel_velocity:
+            code.append(self.restore_conserved_moments(m, fnew))
+
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
-- 
2.43.0


From 8be17743c6d1197ab1362c2e4e21444cd172f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 18/36] fix: evaluate the relaxation rates with the moments of
 the kernel

---
 pylbm/algorithm/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 3d5a7d0..d6d6476 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -434,7 +434,8 @@ class BaseAlgorithm:
         # Ensure eq is a SymbolicVector for element-wise multiplication with self.s
         if not isinstance(eq, SymbolicVector):
             eq = SymbolicVector(eq)
-        relax = (1 - self.s) * m + self.s * eq
+        s = self.s.subs(list(zip(self.mv, m)))
+        relax = (1 - s) * m + s * eq
         alltogether(relax)
         return Eq(m, relax)
 
-- 
2.43.0


From 4bb03e52b92b79ae0fc05eb91d998f9460de2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:09 +0000
Subject: [PATCH 19/36] fix: keep the conserved moments during a relaxation
 with a relative velocity

---
 pylbm/algorithm/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index d6d6476..021082a 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -436,6 +436,10 @@ class BaseAlgorithm:
             eq = SymbolicVector(eq)
         s = self.s.subs(list(zip(self.mv, m)))
         relax = (1 - s) * m + s * eq
+        if with_rel_velocity:
+            # the conserved moments are used by the equilibria which follow
+            for i in range(len(self.consm)):
+                relax[i] = m[i]
         alltogether(relax)
         return Eq(m, relax)
 
-- 
2.43.0


From 315c29bb8e87f5b76bd962a2d46153e46c2dc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 20/36] fix: keep the expressions which use the relative
 velocity in one loop

---
 pylbm/algorithm/base.py | 7 ++++---
 pylbm/algorithm/pull.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 021082a..f42e7d0 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -565,7 +565,7 @@ class BaseAlgorithm:
             code.extend(self.source_term_local(m))
 
         code.append(self.m2f_local(m, fnew, with_rel_velocity))
-        return code
+        return [code] if with_rel_velocity else code
 
     def one_time_step(self):
         """
@@ -609,10 +609,11 @@ class BaseAlgorithm:
 
         if split:
             # code = [loop([*self.coords(), i]) for i in internal]
-            code = [loop([i]) for i in internal]
+            # the expressions gathered in a list share temporaries: same loop
+            code = [loop(i if isinstance(i, list) else [i]) for i in internal]
         else:
             # code = loop([*self.coords(), *internal])
-            code = loop([*internal])
+            code = loop(sp.flatten(internal))
 
         return {
             "code": code,
diff --git a/pylbm/algorithm/pull.py b/pylbm/algorithm/pull.py
index ab33a0f..a00af8c 100644
--- a/pylbm/algorithm/pull.py
+++ b/pylbm/algorithm/pull.py
@@ -56,4 +56,4 @@ class PullAlgorithm(BaseAlgorithm):
 
         code.append(self.m2f_local(m, fnew, with_rel_velocity))
 
-        return code
+        return [code] if with_rel_velocity else code
-- 
2.43.0


From e5151f03d8b60540b405506c7e776e1e41f76578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 21/36] fix: evaluate all the source terms with the same
 moments

---
 pylbm/algorithm/base.py | 22 +++++++++++++++-------
 pylbm/algorithm/pull.py |  4 ++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index f42e7d0..7454b40 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -148,6 +148,7 @@ class BaseAlgorithm:
                     else:
                         rhs = recursive_sub(v, to_subs)
                     self.source_eq.append((lhs, rhs))
+        self.source_symb = sp.symbols("source_:%d" % len(self.source_eq), real=True)
 
         self.vmax = [0] * 3
         self.vmax[: scheme.dim] = scheme.stencil.vmax
@@ -497,18 +498,21 @@ class BaseAlgorithm:
             for i, ind in enumerate(indices):
                 local_dict[indices_str[i]] = ind
 
-        for lhs, rhs in self.source_eq:
+        code = []
+        for symb, (lhs, rhs) in zip(self.source_symb, self.source_eq):
             lhs_m = lhs.subs(list(zip(self.mv, m)))
             if isinstance(rhs, (float, int)):
                 rhs_m = rhs
             else:
                 rhs_m = parse_expr(rhs, local_dict)
             dummy = euler(lhs_m, rhs_m)
+            # all the sources are evaluated with the same moments
             if indices:
-                rhs_eq[lhs.i] = dummy.rhs.subs(ind_to_subs)
+                code.append(Eq(symb, dummy.rhs.subs(ind_to_subs)))
             else:
-                rhs_eq[lhs.i] = dummy.rhs
-        return [Eq(m, sp.Matrix(rhs_eq))]
+                code.append(Eq(symb, dummy.rhs))
+            rhs_eq[lhs.i] = symb
+        return code + [Eq(m, sp.Matrix(rhs_eq))]
 
     def source_term(self):
         """
@@ -517,7 +521,10 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_inner()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.source_term_local(m))}
+        return {
+            "code": For(space_index, self.source_term_local(m)),
+            "local_vars": list(self.source_symb),
+        }
 
     def one_time_step_local(self, f, fnew, m):
         """
@@ -554,7 +561,7 @@ class BaseAlgorithm:
             code.append(f2m)
 
         if self.source_eq:
-            code.extend(self.source_term_local(m))
+            code.append(self.source_term_local(m))
 
         code.append(self.relaxation_local(m, with_rel_velocity))
 
@@ -562,7 +569,7 @@ class BaseAlgorithm:
             code.append(self.restore_conserved_moments(m, fnew))
 
         if self.source_eq:
-            code.extend(self.source_term_local(m))
+            code.append(self.source_term_local(m))
 
         code.append(self.m2f_local(m, fnew, with_rel_velocity))
         return [code] if with_rel_velocity else code
@@ -590,6 +597,7 @@ class BaseAlgorithm:
 
         if self.rel_vel_symb:
             local_vars.extend(self.rel_vel_symb)
+        local_vars.extend(self.source_symb)
 
         f = self._get_indexed_on_velocities("f", space_index, -self.all_velocities)
         fnew = self._get_indexed_on_range("fnew", space_index)
diff --git a/pylbm/algorithm/pull.py b/pylbm/algorithm/pull.py
index a00af8c..3dd811f 100644
--- a/pylbm/algorithm/pull.py
+++ b/pylbm/algorithm/pull.py
@@ -44,7 +44,7 @@ class PullAlgorithm(BaseAlgorithm):
             code = [f2m]
 
         if self.source_eq:
-            code.extend(self.source_term_local(m))
+            code.append(self.source_term_local(m))
 
         code.append(self.relaxation_local(m, with_rel_velocity))
 
@@ -52,7 +52,7 @@ class PullAlgorithm(BaseAlgorithm):
             code.append(self.restore_conserved_moments(m, f))
 
         if self.source_eq:
-            code.extend(self.source_term_local(m))
+            code.append(self.source_term_local(m))
 
         code.append(self.m2f_local(m, fnew, with_rel_velocity))
 
-- 
2.43.0


From a0ae6001a7080c18b8e97a38cd812bccd33b91d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 22/36] fix: a stencil is symmetric when all its schemes are

---
 pylbm/stencil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index f5d7d79..1f73fcc 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -850,6 +850,7 @@ class Stencil(list):
         """
         check if all the velocities have their symmetric.
         """
+        all_sym = True
         for n in range(self.nstencils):
             is_sym = True
             scheme_velocities = np.array(self.num[n])
@@ -868,7 +869,8 @@ class Stencil(list):
                 log.info("The stencil %d is symmetric", n)
             else:
                 log.warning("The stencil %d is not symmetric", n)
-        return is_sym
+                all_sym = False
+        return all_sym
 
     # pylint: disable=too-many-locals, too-many-branches, too-many-statements
     # pylint: disable=too-complex
-- 
2.43.0


From aa388ff048ab6d4bb8dc2baff0b8d77f3416cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:13 +0000
Subject: [PATCH 23/36] fix: label the plotted velocities with their own
 numbers

---
 pylbm/stencil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index 1f73fcc..9fdac3f 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -912,9 +912,11 @@ class Stencil(list):
             return pos
 
         pos = []
+        num = []
         title = []
         if unique_velocities:
             pos.append(populate(self.uvx, self.uvy, self.uvz))
+            num.append(self.unum)
             title.append("Stencil of the unique velocities")
         else:
             if k is None:
@@ -925,6 +927,7 @@ class Stencil(list):
                 schemes2plot = k
             for i in schemes2plot:
                 pos.append(populate(self.vx[i], self.vy[i], self.vz[i]))
+                num.append(self.num[i])
                 title.append("Stencil {0:d}".format(i))
 
         views = viewer_mod.Fig(len(pos), 1, dim=self.dim, figsize=(5, 5 * len(pos)))
@@ -953,7 +956,7 @@ class Stencil(list):
 
             if view_label:
                 view.text(
-                    list(map(str, self.num[i])),
+                    list(map(str, num[i])),
                     posi,
                     fontsize=12,
                     color="navy",
-- 
2.43.0


From 4c943425974c96bc7312b38ab37cdefcf812a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 24/36] fix: time the recursive calls of a monitored function

---
 pylbm/monitoring.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pylbm/monitoring.py b/pylbm/monitoring.py
index 434d9ff..fa20e3a 100644
--- a/pylbm/monitoring.py
+++ b/pylbm/monitoring.py
@@ -32,6 +32,7 @@ class Node:
         self.name = name
         self.sons = []
         self.time = 0
+        self.start = 0
 
     def add_node(self, name):
         self.sons.append(Node(self, name))
@@ -71,15 +72,15 @@ class Monitoring:
     def start_timing(self, f):
         info = self.information(f)
         self.tree = self.tree.add_node(info)
-        self.func[info].total_time.append(mpi.Wtime())
-        self.func[info].self_time.append(0)
+        self.tree.start = mpi.Wtime()
 
     def stop_timing(self, f):
         info = self.information(f)
         t = mpi.Wtime()
-        self.func[info].total_time[-1] = t - self.func[info].total_time[-1]
-        self.tree.add_time(self.func[info].total_time[-1])
-        self.func[info].self_time[-1] = self.func[info].total_time[-1] - self.tree.time
+        total_time = t - self.tree.start
+        self.func[info].total_time.append(total_time)
+        self.func[info].self_time.append(total_time - self.tree.time)
+        self.tree.add_time(total_time)
         self.tree = self.tree.del_node()
 
     def print(self):
-- 
2.43.0


From 10d1341e0f2db4a7ca13d08c639cf02bd61360f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 25/36] fix: keep all the points of an axis without velocity

Domain.create_coords sliced the inner coordinates of an axis without ghost
layer with [0:1], which kept one point whatever the size of the axis.
---
 pylbm/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index a6749f9..9f2d2e9 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -434,7 +434,7 @@ class Domain:
         # modification to avoid the case
         # with no velocity in one direction
         ind_beg = [k for k in halo_size]
-        ind_end = [-k if k > 0 else 1 for k in halo_size]
+        ind_end = [-k if k > 0 else None for k in halo_size]
         self.coords = [
             # self.coords_halo[k][halo_size[k]:-halo_size[k]]
             self.coords_halo[k][ind_beg[k] : ind_end[k]]
-- 
2.43.0


From 3e1daf79797c4dabff6f9a2bb0b0f715d29469f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:14 +0000
Subject: [PATCH 26/36] fix: the bounds of a cylinder enclose it

The cylinder goes from center - w to center + w: half of it was outside
the box used to add it in a domain.
---
 pylbm/elements/cylinder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index d458b59..45663e6 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -59,7 +59,8 @@ class Cylinder(Element):
             minimal box where the cylinder is included
 
         """
-        lw = [0.5 * abs(self.w[k]) for k in range(len(self.w))]
+        # the cylinder goes from center - w to center + w
+        lw = [abs(self.w[k]) for k in range(len(self.w))]
         bounds_base = self.base.get_bounds()
         return bounds_base[0] - lw, bounds_base[1] + lw
 
-- 
2.43.0


From a6ebbb2b6f34ed8f5b2490bec30033c0a39c8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:14 +0000
Subject: [PATCH 27/36] fix: distance to a cylinder without maximal distance

dmax=None is the default value and raised a TypeError.
---
 pylbm/elements/cylinder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index 45663e6..3510bed 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -131,6 +131,8 @@ class Cylinder(Element):
             if normal is True
         """
         x, y, z = grid
+        # no limit if dmax is None
+        dlim = np.inf if dmax is None else dmax
 
         # rewritte the coordinates in the frame of the cylinder
         v_cyl = self.iA.dot(np.asarray(v))  # the velocity
@@ -174,7 +176,7 @@ class Cylinder(Element):
             decal = 0.0
         alpha_top = (1.0 - z_cyl) / (v_cyl[2] + decal)
         ind = np.logical_or(
-            np.logical_or(alpha_top < 0, alpha_top > dmax),
+            np.logical_or(alpha_top < 0, alpha_top > dlim),
             np.logical_not(
                 dummyf((x_cyl + alpha_top * v_cyl[0], y_cyl + alpha_top * v_cyl[1]))
             ),
@@ -182,7 +184,7 @@ class Cylinder(Element):
         alpha_top[ind] = 1.0e16
         alpha_bot = -(1.0 + z_cyl) / (v_cyl[2] + decal)
         ind = np.logical_or(
-            np.logical_or(alpha_bot < 0, alpha_bot > dmax),
+            np.logical_or(alpha_bot < 0, alpha_bot > dlim),
             np.logical_not(
                 dummyf((x_cyl + alpha_bot * v_cyl[0], y_cyl + alpha_bot * v_cyl[1]))
             ),
-- 
2.43.0


From 3a0d036a28e992437e3571e8db45b54d5c02c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:14 +0000
Subject: [PATCH 28/36] fix: normal vectors of a cylinder

They were neither unitary, nor orthogonal to the border when the vectors
are not orthonormal, nor opposed to v on the top and the bottom, as they
are for the other elements.
---
 pylbm/elements/cylinder.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index 3510bed..f86144f 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -207,14 +207,20 @@ class Cylinder(Element):
         normal_cyl_z[ind] = -1.0
         # fix the distance
         alpha[alpha == 1.0e16] = -1.0
-        # rewritte the normal vector in the initial frame
+        # rewritte the normal vector in the initial frame:
+        # a vector orthogonal to the border is changed by the transpose of iA
         normal_vect = np.zeros(normal_cyl.shape)
         for k in range(3):
             normal_vect[..., k] = (
-                self.A[k, 0] * normal_cyl_x
-                + self.A[k, 1] * normal_cyl_y
-                + self.A[k, 2] * normal_cyl_z
+                self.iA[0, k] * normal_cyl_x
+                + self.iA[1, k] * normal_cyl_y
+                + self.iA[2, k] * normal_cyl_z
             )
+        # the normal vector is unitary and its sense is opposite to v
+        norm_normal = np.sqrt(np.sum(normal_vect**2, axis=-1))
+        norm_normal[norm_normal == 0] = 1.0
+        norm_normal[np.sum(normal_vect * np.asarray(v), axis=-1) > 0] *= -1.0
+        normal_vect /= norm_normal[..., np.newaxis]
 
         return alpha, border, normal_vect
 
-- 
2.43.0


From 2c2dce4d3895d8cdf2dde9aad53b4c5dc29778e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:28 +0000
Subject: [PATCH 29/36] fix: distance to the edges of a thin set of points in
 3D

The coordinates of the points have the same shape for the 3D elements: a
set with one point along x and y was taken for a 2D one.
---
 pylbm/elements/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pylbm/elements/utils.py b/pylbm/elements/utils.py
index 69abdcb..640905d 100644
--- a/pylbm/elements/utils.py
+++ b/pylbm/elements/utils.py
@@ -47,10 +47,7 @@ def distance_lines(x, y, v, p, vt, dmax, label, normal):
     # Warning: the shape can be
     #   - (x.size, y.size) for the 2D geometries
     #   - x.shape = y.shape for the 3D geometries
-    if x.shape[1] == 1 and y.shape[0] == 1:
-        shape = (x.size, y.size)
-    else:
-        shape = x.shape
+    shape = np.broadcast(x, y).shape
     v2 = [x, y]
     alpha = tgv * np.ones(shape)
     border = -np.ones(shape)
-- 
2.43.0


From 37979e684a827fa8c5d1bdc4fccfdce78e090e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 30/36] fix: a border of the box is not hidden by a farther
 border of an element of the domain

---
 pylbm/domain.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 9f2d2e9..e0121c7 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -297,6 +297,8 @@ class Domain:
         for elem in self.geom.list_elem:
             # treat each element of the geometry
             self.__add_elem(elem)
+        # an element never hides a closer border of the primary box
+        self.__add_box(self.box_label)
 
         self.clean()
         log.info(self.__str__())
@@ -463,10 +465,16 @@ class Domain:
     def __add_init(self, label):
         halo_size = np.asarray(self.stencil.vmax)
         phys_domain = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
-        phys_domain_vect = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         self.in_or_out[:] = self.valout
         in_view = self.in_or_out[tuple(phys_domain)]
         in_view[:] = self.valin
+        self.__add_box(label)
+
+    # pylint: disable=too-many-locals
+    def __add_box(self, label):
+        halo_size = np.asarray(self.stencil.vmax)
+        phys_domain = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
+        phys_domain_vect = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
 
         # first index: the velocity index
         # following indices: the physical points
@@ -482,7 +490,8 @@ class Domain:
         def new_indices(dvik, iuv, indices, dist_view, flag_view, border):
             new_ind = copy.deepcopy(indices)
             flags = flag_view[tuple(indices)]
-            mask = dist_view[tuple(indices)] > dvik
+            # (the border of an element on the one of the box is not hidden)
+            mask = dist_view[tuple(indices)] > dvik * (1 + 1e-10)
             if border == -1:
                 # a periodic border never hides a wall...
                 mask = np.logical_and(mask, np.isin(flags, [self.valin, -1]))
-- 
2.43.0


From 9a25775436b76856e4b5acb64d2a48fca6c7d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:27 +0000
Subject: [PATCH 31/36] fix: the distance to a solid element is not kept at the
 points which are already solid

---
 pylbm/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index e0121c7..555efe2 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -586,8 +586,9 @@ class Domain:
 
         if not elem.isfluid:  # add a solid part
             ind_solid = elem.point_inside(grid)
-            ind_fluid = np.logical_not(ind_solid)
             ioo_view[ind_solid] = self.valout
+            # a point already solid does not reach the element
+            ind_fluid = ioo_view == self.valin
         else:  # add a fluid part
             ind_fluid = elem.point_inside(grid)
             ind_solid = np.logical_not(ind_fluid)
-- 
2.43.0


From 6edbd43c286662f3344df7bc3618a3b8ee4292e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:32 +0000
Subject: [PATCH 32/36] fix: normal vector of a border of the box reached
 before the border of an element

---
 pylbm/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 555efe2..e93ec62 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -530,7 +530,7 @@ class Domain:
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel]
                         if self.compute_normal:
-                            norm_view[tuple(nind + [slice(0, iuvel)])] = 0
+                            norm_view[tuple(nind)] = 0
                             norm_view[tuple(nind + [iuvel])] = -1
                 elif vk > 0 and label[2 * iuvel + 1] != -2:
                     for i in range(vk):
@@ -547,7 +547,7 @@ class Domain:
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel + 1]
                         if self.compute_normal:
-                            norm_view[tuple(nind + [slice(0, iuvel)])] = 0
+                            norm_view[tuple(nind)] = 0
                             norm_view[tuple(nind + [iuvel])] = 1
 
     # pylint: disable=too-many-locals
-- 
2.43.0


From 8111fd3ab4e321ba75c9388132d6999541319950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:12 +0000
Subject: [PATCH 33/36] fix: elements of the geometry at the interfaces between
 the processes

---
 pylbm/domain.py | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index e93ec62..02c9f42 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -468,6 +468,22 @@ class Domain:
         self.in_or_out[:] = self.valout
         in_view = self.in_or_out[tuple(phys_domain)]
         in_view[:] = self.valin
+
+        # points where a displacement leaves the fluid (unlike in in_or_out,
+        # the points on the other side of an interface belong to the box)
+        self.__beg = np.array(
+            [0 if label[2 * k] == -2 else h for k, h in enumerate(halo_size)]
+        )
+        self.__end = np.array(
+            [
+                n if label[2 * k + 1] == -2 else n - h
+                for k, (n, h) in enumerate(zip(self.shape_halo, halo_size))
+            ]
+        )
+        self.__out = np.ones(self.shape_halo, dtype="bool")
+        box = [slice(beg, end) for beg, end in zip(self.__beg, self.__end)]
+        self.__out[tuple(box)] = False
+
         self.__add_box(label)
 
     # pylint: disable=too-many-locals
@@ -567,8 +583,24 @@ class Domain:
         phys_bl, _ = self.get_bounds_halo()
         tmp = np.array((elem_bl - phys_bl) / self.dx, int) - vmax
         nmin = np.maximum(vmax, tmp)
+        box_beg = np.maximum(self.__beg, tmp)
         tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
         nmax = np.minimum(vmax + self.shape_in, tmp)
+        box_end = np.minimum(self.__end, tmp)
+
+        if np.any(box_beg >= box_end):
+            # the element is not in this part of the domain
+            return
+
+        # update the points where a displacement leaves the fluid
+        box_slice = tuple(slice(beg, end) for beg, end in zip(box_beg, box_end))
+        tcoords = (self.coords_halo[d][s] for d, s in enumerate(box_slice))
+        grid = np.meshgrid(*tcoords, sparse=True, indexing="ij")
+        inside = elem.point_inside(grid)
+        self.__out[box_slice][inside] = not elem.isfluid
+
+        if np.any(nmin >= nmax):
+            return
 
         # set the grid
         space_slice = [slice(imin, imax) for imin, imax in zip(nmin, nmax)]
@@ -583,14 +615,17 @@ class Domain:
 
         tcoords = (self.coords_halo[d][s] for d, s in enumerate(space_slice))
         grid = np.meshgrid(*tcoords, sparse=True, indexing="ij")
+        inside = inside[
+            tuple(slice(*s) for s in zip(nmin - box_beg, nmax - box_beg))
+        ]
 
         if not elem.isfluid:  # add a solid part
-            ind_solid = elem.point_inside(grid)
+            ind_solid = inside
             ioo_view[ind_solid] = self.valout
             # a point already solid does not reach the element
             ind_fluid = ioo_view == self.valin
         else:  # add a fluid part
-            ind_fluid = elem.point_inside(grid)
+            ind_fluid = inside
             ind_solid = np.logical_not(ind_fluid)
             ioo_view[ind_fluid] = self.valin
 
@@ -603,7 +638,7 @@ class Domain:
                 ]
                 # check the cells that are out
                 # when we move with the vk velocity
-                out_cells = self.in_or_out[tuple(space_slice)] == self.valout
+                out_cells = self.__out[tuple(space_slice)]
                 # compute the distance and set the boundary label
                 # of each cell and the element with the vk velocity
                 alpha, border, normvect = elem.distance(
-- 
2.43.0


From 8ed409381da054ded042cd1a32e847d7ffca115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:39 +0000
Subject: [PATCH 34/36] fix: equivalent equations with a relative velocity

---
 pylbm/analysis/equivalent_equation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pylbm/analysis/equivalent_equation.py b/pylbm/analysis/equivalent_equation.py
index 21fce74..f9d369b 100644
--- a/pylbm/analysis/equivalent_equation.py
+++ b/pylbm/analysis/equivalent_equation.py
@@ -10,7 +10,7 @@ Symbolic computation of equivalent equations
 
 # pylint: disable=invalid-name
 import sympy as sp
-from ..symbolic import alltogether
+from ..symbolic import alltogether, rel_ux, rel_uy, rel_uz
 
 
 class EquivalentEquation:
@@ -51,6 +51,14 @@ class EquivalentEquation:
         phi1 = sp.zeros(s.shape[0], 1)  # pylint: disable=unsubscriptable-object
         inv_s = [1 / v for v in s]
         sigma = sp.diag(*inv_s) - sp.eye(len(s)) / 2
+        if scheme.rel_vel is not None:
+            # the relaxation acts on the moments in the frame of the relative velocity
+            rel = list(zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel))
+            Tu, Tmu = (
+                T[nconsm:, nconsm:].subs(rel).subs(sublist)
+                for T in (scheme.Tu, scheme.Tmu)
+            )
+            sigma = Tmu * sigma * Tu
         gamma_1 = sp.zeros(nconsm, 1)
 
         self.coeff_order1 = []
-- 
2.43.0


From 834420ddede112c3b834712ba58112ed4009e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:39 +0000
Subject: [PATCH 35/36] fix: amplification matrix of a scheme with a relative
 velocity

---
 pylbm/analysis/stability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index 237d91a..5cc85b5 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -52,10 +52,12 @@ class Stability:
         else:
             jacobian = (scheme.Tu * scheme.EQ).jacobian(self.consm)
         relax_mat_m = sp.eye(self.nvtot) - sp.diag(*scheme.s)
+        if scheme.rel_vel is not None:
+            relax_mat_m = relax_mat_m * scheme.Tu
         relax_mat_m[:, : len(self.consm)] += sp.diag(*scheme.s) * jacobian
 
         if scheme.rel_vel is not None:
-            relax_mat_m = scheme.Tmu * relax_mat_m * scheme.Tu
+            relax_mat_m = scheme.Tmu * relax_mat_m
             relax_mat_m = relax_mat_m.subs(
                 [(i, j) for i, j in zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)]
             )
-- 
2.43.0


From af73994cd76d27fb6331602e81c0f653acecdc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:39 +0000
Subject: [PATCH 36/36] fix: tolerance of the stability criteria relative to
 the polynomial

---
 pylbm/analysis/stability.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index 5cc85b5..3408237 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -15,7 +15,7 @@ from .. import viewer
 from ..utils import print_progress
 from ..symbolic import rel_ux, rel_uy, rel_uz, recursive_sub
 
-TPV = 1.e-10
+TPV = 1.e-8
 
 
 class Stability:
@@ -385,11 +385,21 @@ def operator_deriv(p):
     return [k * p[k] for k in range(1, d + 1)]
 
 
+def normalize(p):
+    """
+    Divide the polynomial by the largest modulus of its coefficients
+    (the coefficients given by operator_circ vary as the square of those of p)
+    """
+    pmax = max(abs(pk) for pk in p)
+    return [pk / pmax for pk in p]
+
+
 def is_S(p):
     """
     recursive algorithm
     is the polynomial p a Schur polynomial
     """
+    p = normalize(p)
     if len(p) == 2:
         return abs(p[0]) < abs(p[1])
     if abs(p[0]) < abs(p[-1]):
@@ -403,14 +413,15 @@ def is_svN(p):
     recursive algorithm
     is the polynomial p a simple von Neumamn polynomial
     """
+    p = normalize(p)
     if len(p) == 2:
         return abs(p[0]) <= abs(p[1]) + TPV
     pcirc = operator_circ(p)
-    if abs(p[0]) < abs(p[-1]):
-        return is_svN(pcirc)
     if all([abs(pcirck) < TPV for pcirck in pcirc]):
         pder = operator_deriv(p)
         return is_S(pder)
+    if abs(p[0]) < abs(p[-1]):
+        return is_svN(pcirc)
     return False
 
 
@@ -419,14 +430,15 @@ def is_vN(p):
     recursive algorithm
     is the polynomial p a von Neumamn polynomial
     """
+    p = normalize(p)
     if len(p) == 2:
         return abs(p[0]) <= abs(p[1]) + TPV
     pcirc = operator_circ(p)
-    if abs(p[0]) < abs(p[-1]):
-        return is_vN(pcirc)
     if all([abs(pcirck) < TPV for pcirck in pcirc]):
         pder = operator_deriv(p)
         return is_vN(pder)
+    if abs(p[0]) < abs(p[-1]):
+        return is_vN(pcirc)
     return False
 
 
-- 
2.43.0

