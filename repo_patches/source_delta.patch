From cfddbbaac551e731ba91fc7b4919ecaf767a79d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 01/76] fix: accept fractional number of time origins given as
 a string

adjust_skip() applied int() to strings like '0.2', which is what the
command line passes (pp.py --norigins 0.2), and raised a ValueError.
---
 atooms/postprocessing/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 9010633..6fc4871 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -158,7 +158,7 @@ def adjust_skip(trajectory, n_origins=None):
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
             skip = int(nbl / float(n_origins)) * trajectory.block_size
-        elif int(n_origins) == 1:
+        elif float(n_origins) == 1:
             skip = len(trajectory.steps)
         else:
             # A float between 0 and 1
@@ -177,7 +177,7 @@ def adjust_skip(trajectory, n_origins=None):
             skip = trajectory.block_size
 
     # Make sure the skip is an multiple of block size
-    if skip % trajectory.block_size != 0 and int(n_origins) != 1:
+    if skip % trajectory.block_size != 0 and float(n_origins) != 1:
         raise ValueError('wrong skip {} {}'.format(skip, trajectory.block_size))
 
     # Normalize anyway and make it even
-- 
2.43.0


From 80f5cf14429a4f771ca0db04679e049fbbe2b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 02/76] fix: keep the interval between origins a multiple of
 the block size

When more origins than blocks were requested, the interval collapsed to
one frame, mixing frames at different positions within the blocks.
---
 atooms/postprocessing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 6fc4871..889843d 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -181,7 +181,7 @@ def adjust_skip(trajectory, n_origins=None):
         raise ValueError('wrong skip {} {}'.format(skip, trajectory.block_size))
 
     # Normalize anyway and make it even
-    skip = max(1, skip)
+    skip = max(trajectory.block_size, skip)
     skip = min(len(trajectory.steps), skip)
     return skip
 
-- 
2.43.0


From b85cb695c7fca916687504ac33cd387a7f8f0e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 03/76] fix: velocity autocorrelation with the default time
 grid

The default grid was built but not used to setup the discrete grid;
it was also taken from the trajectory argument, which may be a path.
---
 atooms/postprocessing/vacf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index b0a7657..2f23285 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -23,8 +23,8 @@ class VelocityAutocorrelation(Correlation):
     def __init__(self, trajectory, tgrid=None, tsamples=30, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
-            self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+            self.grid = linear_grid(0.0, self.trajectory.total_time * 0.10, tsamples)
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From 609c1b1d3a5548b92fbc9707752d1ed5cd1e6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 04/76] fix: velocity autocorrelation ignored the number of
 time origins

---
 atooms/postprocessing/vacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 2f23285..0cf33e6 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -30,7 +30,7 @@ class VelocityAutocorrelation(Correlation):
         def f(x, y):
             return numpy.sum(x * y) / float(x.shape[0])
         self.grid, self.value = gcf_offset(f, self._discrete_tgrid,
-                                           self.trajectory.block_size,
+                                           self.skip,
                                            self.trajectory.steps,
                                            self._vel)
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From 1c37a8339fdb2ace6c723a37f5aed9ed9f6d22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 05/76] fix: self overlap with default time grid from a
 trajectory path

---
 atooms/postprocessing/qt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index 111f088..addd2e0 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -73,7 +73,7 @@ class SelfOverlap(Correlation):
                  tsamples=60):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
-            self.grid = logx_grid(0.0, trajectory.total_time * 0.75, tsamples)
+            self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
         self.a_square = a**2
 
-- 
2.43.0


From fac013d60e64ecfe6a3f2f16aa309972a891bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 06/76] fix: do not modify the list of wave-numbers provided by
 the user

The grid was sorted and overwritten in place with the actual norms, so
that calculations sharing the same list (e.g. the partial correlations)
used different wave-vectors.
---
 atooms/postprocessing/fourierspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 9e8a36f..095d00f 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -213,6 +213,8 @@ class FourierSpaceCorrelation(Correlation):
             else:
                 self.kgrid = linear_grid(min(self.k0), self.kmax, self.ksamples)
         else:
+            # Work on a copy, the grid provided by the user must not be modified
+            self.kgrid = list(self.kgrid)
             # Sort, since code below depends on kgrid[0] being the smallest k-value.
             self.kgrid.sort()
             # If the first wave-vector is negative we replace it by k0
-- 
2.43.0


From 312e679e41a977dcc7c65ad39090e60b5760c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 07/76] fix: wave-vectors used by the f90 structure factor

The python indices of the tabulated exponentials were passed to the f90
kernel as they are, hence all wave-vectors were shifted by the smallest
one along each direction.
---
 atooms/postprocessing/sk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index f81bb33..4d651c7 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -219,8 +219,9 @@ class StructureFactorFast(StructureFactorLegacy):
                 # TODO: do it by transpose()
                 # Fill array of kvectors in this bin
                 ikvec = numpy.ndarray((3, len(klist)), order='F', dtype=numpy.int32)
-                for i, kvec in enumerate(klist):
-                    ikvec[:, i] = kvec
+                # Indices start from 1 in the f90 kernel
+                for ii, kvec in enumerate(klist):
+                    ikvec[:, ii] = numpy.array(kvec) + 1
                 rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
                 fourierspace_module.sk_bare(expo_0, ikvec, rho)
                 rho_0 = rho
-- 
2.43.0


From b66f546dc31460b52d71cd9bc2e464549e3c34ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 08/76] fix: cross correlations in the f90 structure factor

The partial structure factor of two different species was computed from
the density of the first species only.
---
 atooms/postprocessing/sk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 4d651c7..0cfc834 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -205,7 +205,6 @@ class StructureFactorFast(StructureFactorLegacy):
                 expo_1 = expo_0
             else:
                 # Cross correlation
-                # TODO: cross correlation wont work
                 expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])
                 expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])
 
@@ -225,7 +224,11 @@ class StructureFactorFast(StructureFactorLegacy):
                 rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
                 fourierspace_module.sk_bare(expo_0, ikvec, rho)
                 rho_0 = rho
-                rho_1 = rho
+                if expo_1 is expo_0:
+                    rho_1 = rho_0
+                else:
+                    rho_1 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                    fourierspace_module.sk_bare(expo_1, ikvec, rho_1)
                 rho2_av[k] += numpy.sum(rho_0 * rho_1.conjugate())
                 cnt[k] += rho.shape[0]
 
-- 
2.43.0


From 5f8b4bb37b4655b0f4ca0e306d8485cf9d56e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 09/76] fix: f90 structure factor in two dimensions or with
 weights

It crashed in two dimensions and silently ignored the weights.
---
 atooms/postprocessing/sk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 0cfc834..a9e9751 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -184,6 +184,10 @@ class StructureFactorFast(StructureFactorLegacy):
             _log.error('f90 wrapper missing or not functioning')
             raise
 
+        # The f90 kernel handles three dimensions and no weights
+        if len(self.k0) != 3 or self._weight is not None:
+            return super(StructureFactorFast, self)._compute()
+
         nsteps = len(self._pos_0)
         kgrid = self.kgrid
 
-- 
2.43.0


From e195aae1bb7f6497d4eeed149daecade492280ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 10/76] fix: setting wave-vectors with positive components

The size of the tabulated exponentials only accounted for the negative
components of the wave-vectors.
---
 atooms/postprocessing/fourierspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 095d00f..fbe2f07 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -323,10 +323,10 @@ class FourierSpaceCorrelation(Correlation):
                 rounded = numpy.rint(kvec / self.k0)
                 self._kvectors[-1].append(numpy.array(rounded, dtype=int))
                 # Update shift
-                shift = min(shift, int(min(rounded)))
+                shift = max(shift, int(max(abs(rounded))))
 
         # Shift to make all array indices start from 0
-        self._koffset = int(abs(shift)) + 1
+        self._koffset = shift + 1
         for klist in self._kvectors:
             for i in range(len(klist)):
                 klist[i] = tuple(klist[i] + self._koffset)
-- 
2.43.0


From d79e9d5c10dfe53996a4f0ca2f9f4abb37f7d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 11/76] fix: do not reset the global random number generator

The selection of wave-vectors uses its own generator, with the same seed.
---
 atooms/postprocessing/fourierspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index fbe2f07..7b8b821 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -228,13 +228,13 @@ class FourierSpaceCorrelation(Correlation):
         # Decimate
         # Setting the seed here once so as to get the same set
         # independent of filters.
-        random.seed(1)
+        rng = random.Random(1)
         # Pick up a random, unique set of nk vectors out ot the avilable ones
         # without exceeding maximum number of vectors in shell nkmax
         # self.kgrid, self.selection = self._decimate_k()
         for i, klist in enumerate(self._kvectors):
             nk = min(self.nk, len(klist))
-            self._kvectors[i] = random.sample(klist, nk)
+            self._kvectors[i] = rng.sample(klist, nk)
 
         # Define the grid using the actual kvectors
         # average k norms appear after decimation.
-- 
2.43.0


From 108c48ae7b7337d45f2567f2769b8e3edcc1354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 12/76] fix: reset the arrays when a correlation is computed
 again

Positions, velocities and weights were appended to those of the previous
call and the unfolded trajectory could not be read again.
---
 atooms/postprocessing/correlation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b28e6e8..d2f9028 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -310,7 +310,16 @@ class Correlation(object):
         Dump positions and/or velocities at different time frames as a
         list of numpy array.
         """
-        # TODO: what happens if we call compute twice?? Shouldnt we reset the arrays?
+        # Reset the arrays, in case we call compute twice
+        self._pos, self._vel, self._ids, self._pos_unf = [], [], [], []
+        self._pos_0, self._pos_1 = [], []
+        self._vel_0, self._vel_1 = [], []
+        self._ids_0, self._ids_1 = [], []
+        self._pos_unf_0, self._pos_unf_1 = [], []
+        self._unfolded = None
+        if self._weight is not None:
+            self._weight = []
+
         # Ensure phasespace is a list.
         # It may not be a class variable anymore after this
         if not isinstance(self.phasespace, list) and \
-- 
2.43.0


From 0c5abd611951721af323efb9125faf5749f1ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 13/76] fix: reset chi_4 values when it is computed again

---
 atooms/postprocessing/chi4t.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index d1e0c72..30e1030 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -55,7 +55,8 @@ class Chi4SelfOverlap(Correlation):
             return self_overlap(x, y, self.a_square).sum()
 
         side = self.trajectory.read(0).cell.side
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         # At this stage, we can copy the tags
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
@@ -107,7 +108,8 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         def f(x, y):
             return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
 
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-- 
2.43.0


From 8019aae6fb5fbc0a38bf9ab0dc5973983705e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 14/76] fix: g(r) lost one bin every time it was computed again

---
 atooms/postprocessing/gr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 742183e..a4e3776 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -90,6 +90,7 @@ class RadialDistributionFunctionLegacy(Correlation):
 
     def __init__(self, trajectory, rgrid=None, norigins=None, dr=0.04, ndim=-1, rmax=-1.0):
         Correlation.__init__(self, trajectory, rgrid, norigins=norigins)
+        self._rgrid = rgrid
         self.dr = dr
         self.rmax = rmax
         """
@@ -101,6 +102,8 @@ class RadialDistributionFunctionLegacy(Correlation):
         """
         Deferred grid setup
         """
+        # Start from the requested grid, in case we call compute twice
+        self.grid = self._rgrid
         if self.grid is None:
             # Get side of cell. If the system does not have a cell,
             # wrap it in an infinite cell and estimate a reasonable grid.
-- 
2.43.0


From a51dcfcd7559ac1f2c2e1a87393896e550b7aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 15/76] fix: bond-angle distribution lost one bin when computed
 again

---
 atooms/postprocessing/ba.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 2b9a724..98ba2ff 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -60,6 +60,7 @@ class BondAngleDistribution(Correlation):
     def __init__(self, trajectory, norigins=None, dtheta=4.0, rcut=None):
         Correlation.__init__(self, trajectory, None, norigins=norigins)
         self.grid = linear_grid(0.0, 180.0, dtheta)  # reassign grid anyway
+        self._edges = self.grid
         self.rcut = rcut
 
     def _compute(self):
@@ -67,6 +68,8 @@ class BondAngleDistribution(Correlation):
         from atooms.postprocessing.realspace_wrap import compute
         from atooms.system.particle import distinct_species
 
+        # Start from the bin edges, in case we call compute twice
+        self.grid = self._edges
         hist_all = []
         hist_one = numpy.ndarray(len(self.grid), dtype=numpy.int32)
         origins = range(0, len(self.trajectory), self.skip)
-- 
2.43.0


From 686b5c851f0a1232c740ded3de86a8eb9c137926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 16/76] fix: buffer overflow in the bond-angle distribution

The f90 kernel wrote out of bounds for particles with more than 50
neighbors.
---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 98ba2ff..8634646 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -98,7 +98,7 @@ class BondAngleDistribution(Correlation):
             # system = change_species(system, 'F')  # species are in fortran style
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
-            neighbors = numpy.ndarray(50, dtype=numpy.int32)
+            neighbors = numpy.ndarray(len(self._pos_1[i]), dtype=numpy.int32)
             for idx in range(len(self._pos_0[i])):
                 isp = self._ids_0[i][idx]
                 compute.neighbors('C', side, self._pos_0[i][idx],
-- 
2.43.0


From cdc6fd8ef964e5945752b17352ee0764f05d48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 17/76] fix: do() with in-memory trajectories

There is no output file in this case: F(k,t) tried to write relaxation
times and the update option failed.
---
 atooms/postprocessing/correlation.py | 2 ++
 atooms/postprocessing/fkt.py         | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index d2f9028..4782e69 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -299,6 +299,8 @@ class Correlation(object):
     def need_update(self):
         """Check if the trajectory file is newer than the output file"""
         need = True
+        if self._output_file is None:
+            return need
         if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
             if os.path.getmtime(self.trajectory.filename) < \
                os.path.getmtime(self._output_file):
diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 6912971..ba4d1fb 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -167,7 +167,7 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
 
@@ -370,6 +370,6 @@ class IntermediateScattering(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
-- 
2.43.0


From a42a7f775f27d972f3b1fa361b482dd2251ca9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 18/76] fix: refuse filters exceeding the number of bodies

One extra filter was accepted and silently ignored (one body) or made
both filters be ignored in the weights (two bodies).
---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 4782e69..47f8c7f 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -290,7 +290,7 @@ class Correlation(object):
 
     def add_filter(self, cbk, *args, **kwargs):
         """Add filter callback `cbk` along with positional and keyword arguments"""
-        if len(self._cbk) > self.nbodies:
+        if len(self._cbk) >= self.nbodies:
             raise ValueError('number of filters cannot exceed n. of bodies')
         self._cbk.append(cbk)
         self._cbk_args.append(args)
-- 
2.43.0


From 317d68b523e9de02cbb59e8e3461983c344b5c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 19/76] fix: linear fit of exactly linear data

Rounding errors led to the square root of a negative number.
---
 atooms/postprocessing/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 889843d..10550e0 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -89,6 +89,8 @@ def linear_fit(xdata, ydata):
         s = (n*syy - sy**2 - a**2 * (n*sxx - sx**2)) / (n*dof)
     else:
         s = 0.0
+    # Rounding may give a tiny negative value for exactly linear data
+    s = max(s, 0.0)
     sa = n * s / (n*sxx - sx**2)
     sb = sa * sxx / n
     return a, b, sqrt(sa), sqrt(sb)
-- 
2.43.0


From 6d8ec2b76dc0d3c51a415d6aa3f2e5a8ab180b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 20/76] fix: generalized correlation function missed the last
 pair

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 47f8c7f..d9b21b5 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -63,7 +63,7 @@ def gcf(f, grid, skip, t, x):
     cnt = defaultdict(int)
     for i in grid:
         # Note: len(x) gives x.shape[0]
-        for i0 in progress(range(0, len(x)-i-1, skip)):
+        for i0 in progress(range(0, len(x)-i, skip)):
             # Get the actual time difference
             dt = t[i0+i] - t[i0]
             cf[dt] += f(x[i0+i], x[i0])
-- 
2.43.0


From a228e597279ea431515db2e80d4b4831c7bea143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 21/76] fix: read correlation functions with a single entry

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index d9b21b5..ce44cdb 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -568,7 +568,7 @@ class Correlation(object):
     def read(self):
         """Read correlation function from existing file"""
         with open(self._output_file, 'r') as inp:
-            x = numpy.loadtxt(inp, unpack=True)
+            x = numpy.loadtxt(inp, unpack=True, ndmin=2)
             if len(x) == 3:
                 _log.warn("cannot read 3-columns files yet in %s", self._output_file)
             elif len(x) == 2:
-- 
2.43.0


From d8aa2a9ae264c4052214c59c75b07d436b66cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 22/76] fix: non-Gaussian parameter in two dimensions

The prefactor 3/5 holds in three dimensions only.
---
 atooms/postprocessing/alpha2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index 9dc79f5..a1f28eb 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -34,7 +34,8 @@ class NonGaussianParameter(Correlation):
             dx2 = (x - y)**2
             dr2 = numpy.sum(dx2) / float(x.shape[0])
             dr4 = numpy.sum(numpy.sum(dx2, axis=1)**2) / float(x.shape[0])
-            return 3 * dr4 / (5 * dr2**2) - 1
+            ndim = x.shape[1]
+            return ndim * dr4 / ((ndim + 2) * dr2**2) - 1
 
         self.grid, self.value = gcf_offset(alpha_2, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
-- 
2.43.0


From 74c1d9b69846a4ce29682a9c9b933f9f0f0c73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 23/76] fix: fluctuations of integer fields

---
 atooms/postprocessing/correlation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index ce44cdb..8658b01 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -104,9 +104,8 @@ def _subtract_mean(weight):
     for current_field in weight:
         mean += current_field.mean()
     mean /= len(weight)
-    for current_field in weight:
-        current_field -= mean
-    return weight
+    # Return new arrays, the field may be an integer
+    return [current_field - mean for current_field in weight]
 
 
 def _is_iterable(maybe_iterable):
@@ -428,7 +427,7 @@ class Correlation(object):
 
         # Subtract global mean
         if self._weight_fluctuations:
-            _subtract_mean(self._weight)
+            self._weight = _subtract_mean(self._weight)
 
     def _setup_weight_twobody(self):
         """
@@ -459,8 +458,8 @@ class Correlation(object):
 
         # Subtract global mean
         if self._weight_fluctuations:
-            _subtract_mean(self._weight_0)
-            _subtract_mean(self._weight_1)
+            self._weight_0 = _subtract_mean(self._weight_0)
+            self._weight_1 = _subtract_mean(self._weight_1)
 
     def _setup_arrays_twobody(self):
         """Setup list of numpy arrays for two-body correlations."""
-- 
2.43.0


From fa710485c4655f97882aa25cf6643976b3df01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 24/76] fix: filters do not add builtins to the particles of
 the trajectory

---
 atooms/postprocessing/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index 72efb0c..33eae77 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -28,7 +28,7 @@ def Filter(correlation, condition):
         s = copy.copy(system)
         s.particle = []
         for particle in system.particle:
-            if eval(condition, particle.__dict__):
+            if eval(condition, dict(particle.__dict__)):
                 s.particle.append(particle)
         return s
 
-- 
2.43.0


From 935032d4be90e4390cc100c5767b5482524aa5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 25/76] fix: do not modify unfolded positions of a cached
 trajectory

---
 atooms/postprocessing/correlation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 8658b01..1fa2381 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -392,14 +392,15 @@ class Correlation(object):
                             cm += p.position_unfolded * p.mass
                             mtot += p.mass
                         cm /= mtot
-                        # Subtract it
-                        for p in s.particle:
-                            p.position_unfolded -= cm
                     # Apply filter if there is one
-                    # This must be done after the CM has been fixed
+                    # This must be done after the CM has been computed
                     if len(self._cbk) > 0:
                         s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
-                    self._pos_unf.append(s.dump('particle.position_unfolded'))
+                    pos = s.dump('particle.position_unfolded')
+                    # Subtract the CM from a copy, the particles may be cached
+                    if self._fix_cm and len(pos) > 0:
+                        pos = pos - cm
+                    self._pos_unf.append(pos)
             else:
                 for s in progress(th):
                     # Apply filter if there is one
-- 
2.43.0


From f7848e1da5b153089caf7531945519a998bababb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 26/76] fix: fix the center of mass in cross correlations too

---
 atooms/postprocessing/correlation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 1fa2381..068fe69 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -475,8 +475,13 @@ class Correlation(object):
             return
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
+            th = self.trajectory
+            if 'pos' in self.phasespace and self._fix_cm:
+                # Fix the CM using unfolded positions, then fold them back
+                th = Unfolded(self.trajectory, fixed_cm=True)
+                th.add_callback(fold)
             ids = distinct_species(self.trajectory[0].particle)
-            for s in progress(self.trajectory):
+            for s in progress(th):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 if 'pos' in self.phasespace:
@@ -495,7 +500,7 @@ class Correlation(object):
 
         # Dump unfolded positions if requested
         if 'pos-unf' in self.phasespace:
-            for s in progress(Unfolded(self.trajectory)):
+            for s in progress(Unfolded(self.trajectory, fixed_cm=self._fix_cm)):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 self._pos_unf_0.append(s0.dump('pos'))
-- 
2.43.0


From 1e26323f6f00a4d484e994042fc06df1d12892fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 27/76] fix: a single time origin given as an integer

---
 atooms/postprocessing/alpha2.py | 2 +-
 atooms/postprocessing/chi4t.py  | 2 +-
 atooms/postprocessing/msd.py    | 2 +-
 atooms/postprocessing/qt.py     | 4 ++--
 atooms/postprocessing/s4kt.py   | 2 +-
 atooms/postprocessing/sacf.py   | 2 +-
 atooms/postprocessing/vacf.py   | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index a1f28eb..56bfff2 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -25,7 +25,7 @@ class NonGaussianParameter(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, self.trajectory.total_time * 0.75, nsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
 
     def _compute(self):
         def alpha_2(x, y):
diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 30e1030..9c383f3 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -39,7 +39,7 @@ class Chi4SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
         self.a_square = a**2
         self.average = Correlation(self.trajectory, self.grid)
         self.average.short_name = 'Q^u(t)'
diff --git a/atooms/postprocessing/msd.py b/atooms/postprocessing/msd.py
index 12a52ac..d6e404e 100644
--- a/atooms/postprocessing/msd.py
+++ b/atooms/postprocessing/msd.py
@@ -71,7 +71,7 @@ class MeanSquareDisplacement(Correlation):
         # Setup time grid
         # We disable offsets if only one time origin is requested or if no_offset is True
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid,
-                                            offset=self._norigins != '1' and not self._no_offset)
+                                            offset=str(self._norigins) != '1' and not self._no_offset)
         # Note that the grid is redefined
         self.grid, self.value = gcf_offset(msd, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index addd2e0..f533ca3 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -50,7 +50,7 @@ class CollectiveOverlap(Correlation):
         self.a_square = a**2
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
 
     def _compute(self):
         def f(x, y):
@@ -74,7 +74,7 @@ class SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
         self.a_square = a**2
 
     def _compute(self):
diff --git a/atooms/postprocessing/s4kt.py b/atooms/postprocessing/s4kt.py
index 715ce68..acb0d1f 100644
--- a/atooms/postprocessing/s4kt.py
+++ b/atooms/postprocessing/s4kt.py
@@ -34,7 +34,7 @@ class S4ktOverlap(FourierSpaceCorrelation):
         FourierSpaceCorrelation.__init__(self, trajectory, [tgrid, kgrid], norigins,
                                          nk, dk, kmin, kmax, ksamples)
         # Setup time grid
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=str(norigins) != '1')
         self.a_square = a**2
 
     def _tabulate_W(self, kgrid, selection, t_off, t, skip):
diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index e26682e..67730e4 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -23,7 +23,7 @@ class StressAutocorrelation(Correlation):
 
     def __init__(self, trajectory, tgrid, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=str(norigins) != '1')
 
     def _get_stress(self):
         ndims = 3
diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 0cf33e6..fd988ac 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -24,7 +24,7 @@ class VelocityAutocorrelation(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, self.trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From a8a2c357e0ce6bb0a49d4d62973baf0bf5f9934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 28/76] fix: the longest time differences were left out of the
 time grid

---
 atooms/postprocessing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 10550e0..240200f 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -218,7 +218,7 @@ def setup_t_grid(trajectory, t_grid, offset=True):
     else:
         offset_range = [0]
     for off in offset_range:
-        for i in range(off, len(steps)-off):
+        for i in range(off, len(steps)):
             if steps[i] - steps[off] not in off_samp:
                 off_samp[steps[i] - steps[off]] = (off, i-off)
 
-- 
2.43.0


From 8d719ebd8bd24e2569bf1e2989c88bcdc43e8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 29/76] fix: linked cells used an alias removed from numpy

---
 atooms/postprocessing/linkedcells.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index d9f496a..c8c3f46 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -123,7 +123,7 @@ class LinkedCells(object):
 
     def _index(self, pos):
         x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(numpy.int)
+        return x.astype(int)
 
     def on_border(self, pos):
         index = list(self._index(pos))
@@ -142,7 +142,7 @@ class LinkedCells(object):
         # this is the same set of particles we use when retrieving
         # the neighbours? We should keep a reference.
         # from atooms.postprocessing.realspace_wrap import compute
-        # index = numpy.ndarray(pos.shape, dtype=numpy.int)
+        # index = numpy.ndarray(pos.shape, dtype=int)
         # compute.bin_in_cell(pos, self.hbox, self.box_cell, index)
 
         self.neighbors = []
@@ -179,7 +179,7 @@ class LinkedCells(object):
         if as_array:
             npart = len(self.neighbors)
             number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=numpy.int)
+            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From 6c4674ee2f469403fdc9385d19d3a776c1d09fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 30/76] fix: linked cells with particles on the cell boundary

---
 atooms/postprocessing/linkedcells.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index c8c3f46..5b1eed9 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -22,6 +22,7 @@ class LinkedCells(object):
         self.box_cell = self.box / self.n_cell
         if periodic is None:
             periodic = numpy.array([True] * len(box))
+        self.periodic = numpy.array(periodic, dtype=bool)
         self._map(newton, periodic)
 
     def _map(self, newton, periodic):
@@ -122,8 +123,11 @@ class LinkedCells(object):
         self._neigh_cell = new_neigh_cell
 
     def _index(self, pos):
-        x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(int)
+        x = numpy.floor((pos + self.hbox) / self.box_cell).astype(int)
+        # Particles may lie on the boundaries, or outside the cell
+        folded = x % self.n_cell
+        bounded = numpy.clip(x, 0, self.n_cell - 1)
+        return numpy.where(self.periodic, folded, bounded)
 
     def on_border(self, pos):
         index = list(self._index(pos))
-- 
2.43.0


From d85a75f18212451ff49218352b3b005d9bc823aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 31/76] fix: linked cells with a cell that changes size

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 5b1eed9..bf34c6a 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -16,7 +16,7 @@ class LinkedCells(object):
         self._is_adjusted = False
 
     def adjust(self, box, newton, periodic=None):
-        self.box = box
+        self.box = numpy.array(box)
         self.hbox = box / 2
         self.n_cell = (box / self.rcut).astype(int)
         self.box_cell = self.box / self.n_cell
@@ -139,7 +139,7 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted:
+        if not self._is_adjusted or numpy.any(self.box != box):
             self.adjust(box, newton=other is None and newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
-- 
2.43.0


From d5f5d21ccdc7fe6533f1bdd10f33f2b96ac82c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 32/76] fix: linked cells without particles

---
 atooms/postprocessing/linkedcells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index bf34c6a..09504ac 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -183,7 +183,7 @@ class LinkedCells(object):
         if as_array:
             npart = len(self.neighbors)
             number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
+            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors, default=0)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From 8ba965938406e7efefa3ce8b8833a16628106639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 33/76] fix: last bin of g(r) with linked cells

---
 atooms/postprocessing/gr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index a4e3776..270c150 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -242,8 +242,10 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n_1 = len(self._pos_1[0])
             rho = n_1 / system.cell.volume
             nmax = self.rmax**ndims * rho
-            if int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
-                linkedcells = LinkedCells(rcut=self.rmax)
+            # The last bin extends beyond rmax
+            rcut = self.rmax + dr
+            if int(min(system.cell.side / rcut)) > 3 and nmax * n_0 < 1e6:
+                linkedcells = LinkedCells(rcut=rcut)
             else:
                 linkedcells = None
 
-- 
2.43.0


From 2f5d3e3858bdb9f69138e792498858207b3c1a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 34/76] fix: g(r) kernels could write beyond the end of the
 histogram

---
 atooms/postprocessing/realspace.f90 | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 835f3e1..f33d0e0 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -287,7 +287,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -332,7 +332,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -388,7 +388,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -433,7 +433,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -480,7 +480,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -520,7 +520,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -567,7 +567,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -607,7 +607,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
-- 
2.43.0


From 0cb7c5224092f61412c33371fe3c68831d44d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 35/76] fix: size of a buffer in the g(r) kernel with neighbors

---
 atooms/postprocessing/realspace.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index f33d0e0..10ee5d9 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -347,7 +347,7 @@ contains
     integer(8), intent(in)    :: neighbors(:,:), number_of_neighbors(:)
     integer(8), intent(inout) :: hist(:)
     real(8), intent(inout) :: bins(:)
-    real(8)                   :: distances(size(positions,2))  ! stack
+    real(8)                   :: distances(size(other,2))  ! stack
     real(8), intent(in)       :: box(:)
     real(8)    :: dist(size(box)), dist_sq, pos(size(box)), rmax, hbox(size(box))
     integer(8) :: i, j, ii, jj, bin, k, delta
-- 
2.43.0


From d7a289920fe8935557aa357d0c927207cf84e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 36/76] fix: full neighbor lists missed pairs in the same
 linked cell

---
 atooms/postprocessing/linkedcells.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 09504ac..5aead0e 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -22,6 +22,7 @@ class LinkedCells(object):
         self.box_cell = self.box / self.n_cell
         if periodic is None:
             periodic = numpy.array([True] * len(box))
+        self.newton = newton
         self.periodic = numpy.array(periodic, dtype=bool)
         self._map(newton, periodic)
 
@@ -166,8 +167,10 @@ class LinkedCells(object):
             # Initialize an empty list
             neighbors = []
             # Start with particles in the cell of particle ipart
-            if other is None:
+            if other is None and self.newton:
                 neighbors += [_ for _ in particle_in_cell[icell] if _ > ipart]
+            elif other is None:
+                neighbors += [_ for _ in particle_in_cell[icell] if _ != ipart]
             else:
                 neighbors += particle_in_cell[icell]
                 # try:
-- 
2.43.0


From 8bd3d1a36a0e47dfb198286cf4c17fd25e5c3e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 37/76] fix: name of the f90 module in the optimized chi_4

---
 atooms/postprocessing/chi4t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 9c383f3..5777232 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -100,13 +100,13 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
 
     def _compute(self):
         try:
-            from atooms.postprocessing.realspace_wrap import realspace_module
+            from atooms.postprocessing.realspace_wrap import compute
         except ImportError:
             _log.error('f90 wrapper missing or not functioning')
             raise
 
         def f(x, y):
-            return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
+            return compute.self_overlap(x, y, numpy.array(self.a_square))
 
         self.grid, self.value = [], []
         self.average.value, self.variance.value = [], []
-- 
2.43.0


From 1aa3106333633cf6954333b4a1a15f387e5dd467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 38/76] fix: chi_4 skipped the last time origins

---
 atooms/postprocessing/chi4t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 5777232..2c1bedb 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -61,7 +61,7 @@ class Chi4SelfOverlap(Correlation):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0 + i])
                 A2 += w**2
                 A += w
@@ -113,7 +113,7 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0+i])
                 A2 += w**2
                 A += w
-- 
2.43.0


From 3e873e60f7f16d80e415662493fa529055a12a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 39/76] fix: compute() returns grid and values in Fourier space
 too

---
 atooms/postprocessing/fourierspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 7b8b821..42e5025 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -184,7 +184,7 @@ class FourierSpaceCorrelation(Correlation):
         # Setup grid once. If cell changes we'll call it again
         self._setup()
         # Now compute
-        super(FourierSpaceCorrelation, self).compute()
+        return super(FourierSpaceCorrelation, self).compute()
 
     def _setup(self, sample=0):
         # We skip setup if the kgrid is already set up and we are not
-- 
2.43.0


From 829abb0f534a9a48b2ad742470ab7aacc3a722a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 40/76] fix: form factors of the spectral density used the
 indices of the wave-vectors

---
 atooms/postprocessing/ik.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 2053ea0..e2bc641 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -8,7 +8,7 @@ from atooms.trajectory import Trajectory
 from atooms.trajectory.utils import is_cell_variable
 
 from .progress import progress
-from .fourierspace import FourierSpaceCorrelation, expo_sphere
+from .fourierspace import FourierSpaceCorrelation, expo_sphere, _k_norm
 
 __all__ = ['SpectralDensity']
 
@@ -54,7 +54,8 @@ class SpectralDensity(FourierSpaceCorrelation):
             expo = expo_sphere(self.k0, self._koffset, self._pos[i])
             for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
-                    knorm = numpy.dot(kvec, kvec)**0.5
+                    # Norm of the actual wave-vector
+                    knorm = _k_norm(kvec, self.k0, self._koffset)
                     Ri = self._radius[i]
                     mk = 4 * numpy.pi / knorm**3 * \
                         (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
-- 
2.43.0


From e0071cf537a4aa1e4c941a8c85c8fd32d79e8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 41/76] fix: radii of the spectral density when some frames are
 left out

---
 atooms/postprocessing/ik.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index e2bc641..7decda6 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -35,8 +35,17 @@ class SpectralDensity(FourierSpaceCorrelation):
                                          dk, kmin, kmax, ksamples)
         self._is_cell_variable = None
         # TODO: check step consistency 06.09.2017
-        with Trajectory(trajectory_radius) as th:
-            self._radius = [s.dump('particle.radius') for s in th]
+        if isinstance(trajectory_radius, str):
+            with Trajectory(trajectory_radius) as th:
+                steps = th.steps
+                radius = [s.dump('particle.radius') for s in th]
+        else:
+            steps = trajectory_radius.steps
+            radius = [s.dump('particle.radius') for s in trajectory_radius]
+        # If the trajectory is a slice, pick up the matching frames
+        if len(steps) != len(self.trajectory.steps):
+            radius = [radius[steps.index(step)] for step in self.trajectory.steps]
+        self._radius = radius
 
     def _compute(self):
         nsteps = len(self._pos)
-- 
2.43.0


From 2e66873f17ef8ce479ac3a5ac5f393cd4b38816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 42/76] fix: spectral density API ignored trajectory_radius and
 further input files

---
 atooms/postprocessing/api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index f942436..b4fb8d9 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -136,12 +136,12 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
     for th in _get_trajectories([input_file] + list(input_files), global_args):
-        if trajectory_radius is None:
-            trajectory_radius = input_file
-            pp.SpectralDensity(th, trajectory_radius,
-                               kgrid=kgrid, norigins=global_args['norigins'],
-                               kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                               ksamples=ksamples).do(update=global_args['update'])
+        # By default the radii are in the trajectory itself
+        radius = trajectory_radius if trajectory_radius is not None else th
+        pp.SpectralDensity(th, radius,
+                           kgrid=kgrid, norigins=global_args['norigins'],
+                           kmin=kmin, kmax=kmax, nk=nk, dk=dk,
+                           ksamples=ksamples).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
-- 
2.43.0


From bbfb6c060c6af013022254d954c9f854724c9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 43/76] fix: MSD API ignored fix_cm for partial functions

---
 atooms/postprocessing/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index b4fb8d9..5b3a3b0 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -165,7 +165,8 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
-                    rmax=rmsd_max, no_offset=no_offset).do(update=global_args['update'])
+                    rmax=rmsd_max, no_offset=no_offset,
+                    fix_cm=fix_cm).do(update=global_args['update'])
 
 def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
          tsamples=30, func='linear', *input_files, **global_args):
-- 
2.43.0


From b4a0c836973d300cde4f65186ac293553b9fc157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 44/76] fix: chi_4 API with the fast backend and with one
 species

---
 atooms/postprocessing/api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 5b3a3b0..39e65d3 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -257,7 +257,7 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
     global_args = _compat(global_args)
     func = _func_db[func]
     if global_args['fast']:
-        backend = pp.Chi4SelfOverlapOpti
+        backend = pp.Chi4SelfOverlapOptimized
     else:
         backend = pp.Chi4SelfOverlap
 
@@ -268,10 +268,10 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        if total:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
-        if not total and len(ids) > 1:
+        if total or len(ids) == 1:
+            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
+        if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
 
-- 
2.43.0


From 8d3d849a32672646a6106929e2079f5acf4b48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 45/76] fix: S(k) API with a weight trajectory and several
 files

---
 atooms/postprocessing/api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 39e65d3..da0bc72 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -110,9 +110,10 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
                      kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
         if global_args['filter'] is not None:
             cf = pp.Filter(cf, global_args['filter'])
+        th_weight = None
         if weight_trajectory is not None:
-            weight_trajectory = TrajectoryXYZ(weight_trajectory)
-        cf.add_weight(trajectory=weight_trajectory,
+            th_weight = TrajectoryXYZ(weight_trajectory)
+        cf.add_weight(trajectory=th_weight,
                       field=weight,
                       fluctuations=weight_fluctuations)
         cf.do(update=global_args['update'])
@@ -123,7 +124,7 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
                          norigins=global_args['norigins'],
                          kmin=kmin, kmax=kmax, nk=nk, dk=dk,
                          ksamples=ksamples)
-            cf.add_weight(trajectory=weight_trajectory,
+            cf.add_weight(trajectory=th_weight,
                           field=weight,
                           fluctuations=weight_fluctuations)
             cf.do(update=global_args['update'])
-- 
2.43.0


From 79a972dce8d2167a4bc7ca5587068ea587aaba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 46/76] fix: import in acf.py

---
 bin/acf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/acf.py b/bin/acf.py
index 2f58401..6be9d95 100755
--- a/bin/acf.py
+++ b/bin/acf.py
@@ -9,7 +9,7 @@ def main(fname):
     x = numpy.loadtxt(sys.stdin if fname=='-' else fname, unpack=True)
     t_grid = list(range(0, len(x), 10))
     t = list(range(len(x)))
-    x, y, z = postprocessing.correlation.acf(t_grid, 1, t, x)
+    x, y, z = atooms.postprocessing.correlation.acf(t_grid, 1, t, x)
     for xi, yi in zip(x, y):
         print(xi, yi)
 
-- 
2.43.0


From a832f4f5bed3fddeb905a5095d8febf8ad68bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 47/76] fix: computation of the four-point structure factor

---
 atooms/postprocessing/s4kt.py | 48 +++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/atooms/postprocessing/s4kt.py b/atooms/postprocessing/s4kt.py
index acb0d1f..b025655 100644
--- a/atooms/postprocessing/s4kt.py
+++ b/atooms/postprocessing/s4kt.py
@@ -24,7 +24,7 @@ class S4ktOverlap(FourierSpaceCorrelation):
     symbol = 's4kt'
     short_name = 'S_4(t,k)'
     long_name = '4-point dynamic structure factor from self overlap'
-    phasespace = ['pos', 'pos-unf']
+    phasespace = 'pos-unf'
 
     # TODO: refactor a S4k base correlation that forces to implement tabulat method (e.g. overlap, Q_6, voronoi ...)
     # TODO: should we drop this instead and rely on F(k,t) with grandcanonical
@@ -37,21 +37,24 @@ class S4ktOverlap(FourierSpaceCorrelation):
         self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=str(norigins) != '1')
         self.a_square = a**2
 
-    def _tabulate_W(self, kgrid, selection, t_off, t, skip):
+    def _tabulate_W(self, t_off, t, skip):
         """
         Tabulate W
         """
-        side = self.trajectory[0].cell.side
-        nt = range(t_off, len(self._pos)-t, skip)
-        W = {}
+        nt = range(t_off, len(self._pos_unf)-t, skip)
+        W = [{} for _ in self._kvectors]
         for i_0, t_0 in enumerate(nt):
-            expo = expo_sphere(self.k0, self._koffset, self._pos[t_0])
-            for k, klist in self._kvectors:
+            # The phases do not depend on whether the positions are folded
+            expo = expo_sphere(self.k0, self._koffset, self._pos_unf[t_0])
+            overlap = self_overlap(self._pos_unf[t_0], self._pos_unf[t_0+t], self.a_square)
+            for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
-                    if kvec not in W:
-                        W[kvec] = numpy.ndarray(len(nt), dtype=complex)
-                    W[kvec][i_0] = numpy.sum(self_overlap(self._pos_unf[t_0], self._pos_unf[t_0+t], side, self.a_square) *
-                                             expo[..., 0, kvec[0]] * expo[..., 1, kvec[1]] * expo[..., 2, kvec[2]])
+                    if kvec not in W[k]:
+                        W[k][kvec] = numpy.ndarray(len(nt), dtype=complex)
+                    phase = overlap * expo[..., 0, kvec[0]]
+                    for idim in range(1, len(kvec)):
+                        phase = phase * expo[..., idim, kvec[idim]]
+                    W[k][kvec][i_0] = numpy.sum(phase)
         return W
 
     def _compute(self):
@@ -60,22 +63,23 @@ class S4ktOverlap(FourierSpaceCorrelation):
         # We do not expect to do it for many times (typically we show S_4(k,tau_alpha) vs k)
         dt = []
         self.value = []
+        npart = self._pos_unf[0].shape[0]
         for off, i in progress(self._discrete_tgrid):
             # As for fkt
-            W = self._tabulate_W(self.kgrid, self.selection, off, i, self.skip)
+            W = self._tabulate_W(off, i, self.skip)
 
-            # Compute variance of W
-            w_av = [complex(0., 0.) for _ in self.kgrid]
-            w2_av = [complex(0., 0.) for _ in self.kgrid]
-            for k, klist in self._kvectors:
+            # Compute variance of W, averaged over the wave-vectors
+            s4 = []
+            for k, klist in enumerate(self._kvectors):
+                value = 0.0
                 for kvec in klist:
-                    # Comupte |<W>|^2  and <W W^*>
-                    w_av[kk] = numpy.average(W[kvec])
-                    w2_av[kk] = numpy.average(W[kvec] * W[kvec].conjugate())
+                    # Compute |<W>|^2  and <W W^*>
+                    w_av = numpy.average(W[k][kvec])
+                    w2_av = numpy.average(W[k][kvec] * W[k][kvec].conjugate())
+                    value += (w2_av - w_av * w_av.conjugate()).real
+                s4.append(value / len(klist) / npart)
 
-            # Normalization
-            npart = self._pos[0].shape[0]
             dt.append(self.trajectory.timestep * (self.trajectory.steps[off+i] - self.trajectory.steps[off]))
-            self.value.append([float(w2_av[k] - (w_av[k]*w_av[k].conjugate())) / npart for k in range(len(self.grid[1]))])
+            self.value.append(s4)
         self.grid[1] = self.kgrid
         self.grid[0] = dt
-- 
2.43.0


From cef365b83fff0d0d66748530584647add84a0184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 48/76] fix: cells that fluctuate but end as they started

---
 atooms/postprocessing/ik.py | 2 +-
 atooms/postprocessing/sk.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 7decda6..8866f41 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -54,7 +54,7 @@ class SpectralDensity(FourierSpaceCorrelation):
         # Note: actually rho_av is not calculated because it is negligible
         rho_av = [complex(0., 0.) for k in self.kgrid]
         rho2_av = [complex(0., 0.) for k in self.kgrid]
-        cell_variable = is_cell_variable(self.trajectory)
+        cell_variable = is_cell_variable(self.trajectory, tests=-1)
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update
             if cell_variable:
diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index a9e9751..308bfed 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -67,7 +67,7 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
         rho_0_av = [complex(0., 0.) for k in kgrid]
         rho_1_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
-        variable_cell = is_cell_variable(self.trajectory)
+        variable_cell = is_cell_variable(self.trajectory, tests=-1)
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
@@ -195,7 +195,7 @@ class StructureFactorFast(StructureFactorLegacy):
         cnt = [0 for k in kgrid]
         rho_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
-        variable_cell = is_cell_variable(self.trajectory)
+        variable_cell = is_cell_variable(self.trajectory, tests=-1)
         for i in range(0, nsteps, self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
-- 
2.43.0


From d54ee81b51afef53a5dbcf8ce8c28394c74228f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 49/76] fix: wave-vectors of a variable cell when computing
 again

---
 atooms/postprocessing/fourierspace.py | 14 +++++++++++---
 atooms/postprocessing/ik.py           |  2 +-
 atooms/postprocessing/sk.py           |  4 ++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 42e5025..ea882cd 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -176,6 +176,8 @@ class FourierSpaceCorrelation(Correlation):
         self.kmax = kmax
         self.ksamples = ksamples
         self.kgrid = None
+        self._kgrid_requested = None
+        self._has_kgrid_requested = False
         self.k0 = []
         self._kvectors = []
         self._koffset = 0
@@ -186,11 +188,11 @@ class FourierSpaceCorrelation(Correlation):
         # Now compute
         return super(FourierSpaceCorrelation, self).compute()
 
-    def _setup(self, sample=0):
+    def _setup(self, sample=0, rebuild=False):
         # We skip setup if the kgrid is already set up and we are not
-        # asking to rebuild it (for a sample != 0).
+        # asking to rebuild it.
         # This allows to copy over the kvectors and kgrid
-        if sample == 0 and self.kgrid is not None:
+        if not rebuild and self.kgrid is not None:
             return
 
         # We subclass compute to define k grid at compute time
@@ -202,6 +204,12 @@ class FourierSpaceCorrelation(Correlation):
         else:
             self.kgrid = self.grid
 
+        # Always start from the requested grid, in case we call compute twice
+        if not self._has_kgrid_requested:
+            self._kgrid_requested = self.kgrid
+            self._has_kgrid_requested = True
+        self.kgrid = self._kgrid_requested
+
         # Smallest kvector
         self.k0 = 2*math.pi/self.trajectory[sample].cell.side
         # If grid is not provided, setup a linear grid from kmin,kmax,ksamples data
diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 8866f41..b116fa7 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -58,7 +58,7 @@ class SpectralDensity(FourierSpaceCorrelation):
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update
             if cell_variable:
-                self._setup(i)
+                self._setup(i, rebuild=True)
 
             expo = expo_sphere(self.k0, self._koffset, self._pos[i])
             for k, klist in enumerate(self._kvectors):
diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 308bfed..21d6c9e 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -71,7 +71,7 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
-                self._setup(i)
+                self._setup(i, rebuild=True)
 
             # Tabulate exponentials
             # Note: tabulating and computing takes about the same time
@@ -199,7 +199,7 @@ class StructureFactorFast(StructureFactorLegacy):
         for i in range(0, nsteps, self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
-                self._setup(i)
+                self._setup(i, rebuild=True)
 
             # Tabulate exponentials
             # Note: tabulating and computing takes about the same time
-- 
2.43.0


From 88193e407b1aa23c0e926267e13e48f90e0f5151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 50/76] fix: Fourier-space correlations of a group that is
 empty in some frames

---
 atooms/postprocessing/fourierspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index ea882cd..4399e83 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -34,10 +34,13 @@ def expo_sphere(k0, nk_max, pos):
     # This leaves many unused vectors in the other directions, which
     # could be dropped using different nkmax for x, y, z
     # The shape of expo is nframes, N, ndim, 2*nk+1
-    expo = numpy.ndarray((len(pos), ) + pos[0].shape + (2*nk_max+1, ), numpy.complex128)
+    if len(pos) == 0:
+        # There may be no particles in this frame, once filtered
+        pos = numpy.zeros((0, len(k0)))
+    expo = numpy.ndarray(pos.shape + (2*nk_max+1, ), numpy.complex128)
     expo[..., nk_max] = numpy.complex128('1+0j')
     # First fill positive k
-    for j in range(pos[0].shape[-1]):
+    for j in range(pos.shape[-1]):
         expo[..., j, nk_max+1] = numpy.exp(im * k0[j] * pos[..., j])
         expo[..., j, nk_max-1] = expo[..., j, nk_max+1].conjugate()
         for i in range(2, nk_max):
-- 
2.43.0


From 947e00906739c19b8a7e8f9accc2a8af884f736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 51/76] fix: linked cells keep the map of the previous kind of
 search

---
 atooms/postprocessing/linkedcells.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 5aead0e..e4ff74e 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -140,8 +140,13 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted or numpy.any(self.box != box):
-            self.adjust(box, newton=other is None and newton, periodic=periodic)
+        newton = other is None and newton
+        if periodic is None:
+            periodic = [True] * len(box)
+        # The map of subcells depends on the box, but also on the kind of search
+        if not self._is_adjusted or numpy.any(self.box != box) or \
+           self.newton != newton or numpy.any(self.periodic != numpy.array(periodic, dtype=bool)):
+            self.adjust(box, newton=newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
         # this is the same set of particles we use when retrieving
-- 
2.43.0


From f0c4e383e41588e8beba96ecca48ee30c4243f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 52/76] fix: default cutoffs of the bond-angle distribution
 when g(r) has no minimum

---
 atooms/postprocessing/ba.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 8634646..f81d720 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -36,7 +36,9 @@ def _default_rcut(th):
             _, m = ifabsmm(list(gr.partial[(isp, jsp)].grid),
                            list(gr.partial[(isp, jsp)].value))
             # Then look for first minimum after the maximum
-            for i in range(len(gr.partial[(isp, jsp)].grid)):
+            # If there is none, the cutoff is the largest distance
+            rcut[(isp, jsp)] = gr.partial[(isp, jsp)].grid[-1]
+            for i in range(len(gr.partial[(isp, jsp)].grid) - 1):
                 if gr.partial[(isp, jsp)].grid[i] >= m[0]:
                     delta = gr.partial[(isp, jsp)].value[i+1] - gr.partial[(isp, jsp)].value[i]
                     if delta >= 0:
-- 
2.43.0


From d09e3f3b245d870b87a1561da6b02f022630a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 53/76] fix: centering cached frames more than once in the API

---
 atooms/postprocessing/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index da0bc72..88fb844 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -1,5 +1,7 @@
 """Post processing API."""
 
+import copy
+
 import atooms.postprocessing as pp
 from atooms.postprocessing.progress import progress
 from atooms.postprocessing.partial import Partial
@@ -14,13 +16,17 @@ _func_db = {'linear_grid': linear_grid,
             'logx_grid': logx_grid,
             'logx': logx_grid}
 
+def _center(system):
+    """Center a copy of the system, the particles may be cached and read again"""
+    return center(copy.deepcopy(system))
+
 def _get_trajectories(input_files, args):
     from atooms.trajectory import Sliced
     from atooms.core.utils import fractional_slice
     for input_file in input_files:
         with Trajectory(input_file, fmt=args['fmt']) as th:
             if args['center']:
-                th.add_callback(center)
+                th.add_callback(_center)
             # Caching is useful for systems with multiple species but
             # it will increase the memory footprint. Use --no-cache to
             # disable it
-- 
2.43.0


From 81668055b5c65c7531aa1ca191c6308f85632bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 54/76] fix: unfolded frames folded twice when the trajectory
 is cached

---
 atooms/postprocessing/correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 068fe69..fdcb418 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -353,6 +353,9 @@ class Correlation(object):
             # We unfold the positions, caching the trajectory
             if self._unfolded is None:
                 self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
+                # The unfolded frames must not be cached: the callback
+                # below would fold again the ones that are read twice
+                self._unfolded.cache = False
                 # We must fold positions back in this case
                 if 'pos' in self.phasespace:
                     self._unfolded.add_callback(fold)
-- 
2.43.0


From 3b82c17f167a661d8ff4066e9378c457797dcab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 55/76] fix: spectral density of a shell that includes the null
 vector

---
 atooms/postprocessing/ik.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index b116fa7..960925c 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -66,8 +66,12 @@ class SpectralDensity(FourierSpaceCorrelation):
                     # Norm of the actual wave-vector
                     knorm = _k_norm(kvec, self.k0, self._koffset)
                     Ri = self._radius[i]
-                    mk = 4 * numpy.pi / knorm**3 * \
-                        (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
+                    if knorm > 0:
+                        mk = 4 * numpy.pi / knorm**3 * \
+                            (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
+                    else:
+                        # A shell may include the null vector, take the limit
+                        mk = 4 * numpy.pi / 3 * Ri**3
                     rho = numpy.sum(mk *
                                     expo[..., 0, kvec[0]] *
                                     expo[..., 1, kvec[1]] *
-- 
2.43.0


From 5964d7e873b633cdde6da9e21d1f78d85d2b61bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 56/76] fix: write the output of a trajectory in the current
 directory

The path of the output file of a trajectory given without a directory
has no directory part, and there is then no directory to create.
---
 atooms/postprocessing/correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index fdcb418..914e8a8 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -652,7 +652,9 @@ class Correlation(object):
         import os
         from atooms.core.utils import mkdir
         if self._output_file is not None:
-            mkdir(os.path.dirname(self._output_file))
+            dirname = os.path.dirname(self._output_file)
+            if len(dirname) > 0:
+                mkdir(dirname)
             with open(self._output_file, 'w') as fh:
                 fh.write(comments)
                 if len(analysis) > 0:
-- 
2.43.0


From 48cbe18065bf2c742bb3423f5d565e710e338a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 57/76] fix: volume of the shells of g(r) in odd dimensions
 other than three

---
 atooms/postprocessing/gr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 270c150..60b1f9a 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -168,7 +168,7 @@ class RadialDistributionFunctionLegacy(Correlation):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
         rho = N_1 / volume
         if self._pos_0 is self._pos_1:
@@ -349,7 +349,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
 
         rho = N_1 / volume
-- 
2.43.0


From 09356058c8974ea7ebc8726e6b4e76f6840771b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 58/76] fix: the average and second moment of chi_4 said that
 they were for the whole system

---
 atooms/postprocessing/chi4t.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 2c1bedb..0b1be3a 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -58,7 +58,8 @@ class Chi4SelfOverlap(Correlation):
         self.grid, self.value = [], []
         self.average.value, self.variance.value = [], []
         # At this stage, we can copy the tags
-        self.average.tag, self.variance.tag = self.tag, self.tag
+        for other in (self.average, self.variance):
+            other.tag, other.tag_description = self.tag, self.tag_description
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
             for i0 in range(off, len(self._pos_unf)-i, self.skip):
@@ -110,7 +111,8 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
 
         self.grid, self.value = [], []
         self.average.value, self.variance.value = [], []
-        self.average.tag, self.variance.tag = self.tag, self.tag
+        for other in (self.average, self.variance):
+            other.tag, other.tag_description = self.tag, self.tag_description
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
             for i0 in range(off, len(self._pos_unf)-i, self.skip):
-- 
2.43.0


From 7404d6693fb054f33eb45cae5d472c55bbe39ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 59/76] fix: folded and unfolded positions could not be used in
 the same correlation

---
 atooms/postprocessing/correlation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 914e8a8..5e7c189 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -345,11 +345,9 @@ class Correlation(object):
         # Local shortcut
         th = self.trajectory
 
-        # We unfold the trajectory if phasespace requests it and
-        # unfolded positions are not available in the trajectory, or
-        # if we request folded positions with fixed center of mass
-        if ('pos-unf' in self.phasespace and not hasattr(th[0].particle[0], 'position_unfolded')) or \
-           ('pos' in self.phasespace and self._fix_cm):
+        # We unfold the trajectory if we request folded positions with
+        # fixed center of mass
+        if 'pos' in self.phasespace and self._fix_cm:
             # We unfold the positions, caching the trajectory
             if self._unfolded is None:
                 self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
@@ -357,8 +355,7 @@ class Correlation(object):
                 # below would fold again the ones that are read twice
                 self._unfolded.cache = False
                 # We must fold positions back in this case
-                if 'pos' in self.phasespace:
-                    self._unfolded.add_callback(fold)
+                self._unfolded.add_callback(fold)
             # Change the local shortcut to the unfolded trajectory
             th = self._unfolded
 
@@ -380,6 +377,8 @@ class Correlation(object):
 
         # Read unfolded positions if requested
         if 'pos-unf' in self.phasespace:
+            # The frames read above may be folded and are read only once
+            th = self.trajectory
             if hasattr(th[0].particle[0], 'position_unfolded'):
                 # Unfolded positions are present in the trajectory
                 for s in progress(th):
@@ -405,7 +404,8 @@ class Correlation(object):
                         pos = pos - cm
                     self._pos_unf.append(pos)
             else:
-                for s in progress(th):
+                # Unfolded positions are not available in the trajectory
+                for s in progress(Unfolded(th, fixed_cm=self._fix_cm)):
                     # Apply filter if there is one
                     if len(self._cbk) > 0:
                         s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
-- 
2.43.0


From eaf64d5abf62b049bf74cb0ff98d20a3ba90e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 60/76] fix: two-body correlations without filters had no
 unfolded positions

---
 atooms/postprocessing/correlation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 5e7c189..ef988e2 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -475,6 +475,8 @@ class Correlation(object):
             self._vel_1 = self._vel
             self._ids_0 = self._ids
             self._ids_1 = self._ids
+            self._pos_unf_0 = self._pos_unf
+            self._pos_unf_1 = self._pos_unf
             return
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
-- 
2.43.0


From d63ff9738274a79cce0bc8fc88f38f33ce312ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 61/76] fix: average numbers of particles over the frames used
 in the legacy g(r)

The pairs are averaged over the time origins at which both groups have
particles, the numbers of particles were averaged over all frames.  With a
species missing from some frames, g(r) was overestimated.
---
 atooms/postprocessing/gr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 60b1f9a..9a203e4 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -143,9 +143,7 @@ class RadialDistributionFunctionLegacy(Correlation):
         # Note that testing if the trajectory is grandcanonical or
         # semigrandcanonical is useless when applying filters.
         # N_0, N_1 = len(self._pos_0[0]), len(self._pos_1[0])
-        N_0 = numpy.average([len(x) for x in self._pos_0])
-        N_1 = numpy.average([len(x) for x in self._pos_1])
-
+        N_0, N_1 = [], []
         gr_all = []
         _, r = numpy.histogram([], bins=self.grid)
         origins = range(0, ncfg, self.skip)
@@ -154,6 +152,9 @@ class RadialDistributionFunctionLegacy(Correlation):
             side = system.cell.side
             if len(self._pos_0[i]) == 0 or len(self._pos_1[i]) == 0:
                 continue
+            # Average the numbers of particles over the same frames as the pairs
+            N_0.append(len(self._pos_0[i]))
+            N_1.append(len(self._pos_1[i]))
             if self._pos_0 is self._pos_1:
                 gr = pairs_newton_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
             else:
@@ -161,6 +162,8 @@ class RadialDistributionFunctionLegacy(Correlation):
             gr_all.append(gr)
 
         # Normalization
+        N_0 = numpy.average(N_0)
+        N_1 = numpy.average(N_1)
         volume = system.cell.volume
         if ndims == 2:
             vol = math.pi * (r[1:]**2 - r[:-1]**2)
-- 
2.43.0


From cd351de69bf3c2dfcb122b76863ca65a44c28f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 62/76] fix: linked cells with less than three subcells along a
 side

The same neighbouring subcell was visited twice, and with a cutoff larger than
a side there was no subcell.  This happens with fluctuating cells, for which
g(r) decides about linked cells from the first frame.
---
 atooms/postprocessing/linkedcells.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index e4ff74e..f8c5c96 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -18,7 +18,7 @@ class LinkedCells(object):
     def adjust(self, box, newton, periodic=None):
         self.box = numpy.array(box)
         self.hbox = box / 2
-        self.n_cell = (box / self.rcut).astype(int)
+        self.n_cell = numpy.maximum(1, (box / self.rcut).astype(int))
         self.box_cell = self.box / self.n_cell
         if periodic is None:
             periodic = numpy.array([True] * len(box))
@@ -123,6 +123,19 @@ class LinkedCells(object):
                     new_neigh_cell[key].append(subcell)
         self._neigh_cell = new_neigh_cell
 
+        # With less than three subcells along a periodic direction, the
+        # same neighbouring subcell is found more than once
+        if numpy.any(self.n_cell < 3):
+            for key in self._neigh_cell:
+                unique = []
+                for subcell in self._neigh_cell[key]:
+                    if subcell == key or subcell in unique:
+                        continue
+                    if newton and key in self._neigh_cell[subcell]:
+                        continue
+                    unique.append(subcell)
+                self._neigh_cell[key] = unique
+
     def _index(self, pos):
         x = numpy.floor((pos + self.hbox) / self.box_cell).astype(int)
         # Particles may lie on the boundaries, or outside the cell
-- 
2.43.0


From dbd7b842df8b73ca95ba48ea7db72b0970cce7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 63/76] fix: average the density over frames in g(r)

The normalisation used the volume of the last frame only, so that g(r) did not
tend to one in a cell that fluctuates.
---
 atooms/postprocessing/gr.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 9a203e4..b369bc2 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -143,7 +143,7 @@ class RadialDistributionFunctionLegacy(Correlation):
         # Note that testing if the trajectory is grandcanonical or
         # semigrandcanonical is useless when applying filters.
         # N_0, N_1 = len(self._pos_0[0]), len(self._pos_1[0])
-        N_0, N_1 = [], []
+        N_0, rho = [], []
         gr_all = []
         _, r = numpy.histogram([], bins=self.grid)
         origins = range(0, ncfg, self.skip)
@@ -154,7 +154,7 @@ class RadialDistributionFunctionLegacy(Correlation):
                 continue
             # Average the numbers of particles over the same frames as the pairs
             N_0.append(len(self._pos_0[i]))
-            N_1.append(len(self._pos_1[i]))
+            rho.append(len(self._pos_1[i]) / system.cell.volume)
             if self._pos_0 is self._pos_1:
                 gr = pairs_newton_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
             else:
@@ -163,8 +163,7 @@ class RadialDistributionFunctionLegacy(Correlation):
 
         # Normalization
         N_0 = numpy.average(N_0)
-        N_1 = numpy.average(N_1)
-        volume = system.cell.volume
+        rho = numpy.average(rho)
         if ndims == 2:
             vol = math.pi * (r[1:]**2 - r[:-1]**2)
         elif ndims == 3:
@@ -173,7 +172,6 @@ class RadialDistributionFunctionLegacy(Correlation):
             from math import gamma
             n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
-        rho = N_1 / volume
         if self._pos_0 is self._pos_1:
             norm = rho * vol * N_0 * 0.5  # use Newton III
         else:
@@ -223,6 +221,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         # Note that testing if the trajectory is grandcanonical or
         # semigrandcanonical is useless when applying filters.
         N_0, N_1 = [], []
+        volume = []
         gr_all = []
 
         # Grid setup.
@@ -317,6 +316,10 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             else:
                 N_1.append(pos_0.shape[0])
 
+            # The cell may fluctuate
+            if system.cell is not None:
+                volume.append(system.cell.volume)
+
             # Compute g(r)
             if not distinct:
                 if linkedcells is None:
@@ -341,11 +344,9 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         # Array r is used to compute shells, we thus use the bin boundaries
         r = bins - (bins[1] - bins[0]) / 2
         N_0 = numpy.average(N_0)
-        N_1 = numpy.average(N_1)
-        if system.cell is not None:
-            volume = system.cell.volume
-        else:
+        if system.cell is None:
             volume = len(system.particle) / system.density
+        rho = numpy.average(numpy.array(N_1) / numpy.array(volume))
         if ndims == 2:
             vol = math.pi * (r[1:]**2 - r[:-1]**2)
         elif ndims == 3:
@@ -355,7 +356,6 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
 
-        rho = N_1 / volume
         norm = rho * vol * N_0
 
         if not distinct:
-- 
2.43.0


From 843de306ec723711bfd6ac9d61217e52bc04b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 64/76] fix: integer bin widths in g(r) and bond-angle
 distribution

linear_grid() takes an integer as the number of points, so that dr=1
failed and dtheta=10 gave bins of 20 degrees.
---
 atooms/postprocessing/ba.py | 3 ++-
 atooms/postprocessing/gr.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index f81d720..1c7219b 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -61,7 +61,8 @@ class BondAngleDistribution(Correlation):
 
     def __init__(self, trajectory, norigins=None, dtheta=4.0, rcut=None):
         Correlation.__init__(self, trajectory, None, norigins=norigins)
-        self.grid = linear_grid(0.0, 180.0, dtheta)  # reassign grid anyway
+        # An integer bin width would be taken as a number of points
+        self.grid = linear_grid(0.0, 180.0, float(dtheta))  # reassign grid anyway
         self._edges = self.grid
         self.rcut = rcut
 
diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index b369bc2..af9395b 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -91,7 +91,8 @@ class RadialDistributionFunctionLegacy(Correlation):
     def __init__(self, trajectory, rgrid=None, norigins=None, dr=0.04, ndim=-1, rmax=-1.0):
         Correlation.__init__(self, trajectory, rgrid, norigins=norigins)
         self._rgrid = rgrid
-        self.dr = dr
+        # An integer would be taken as a number of points
+        self.dr = float(dr)
         self.rmax = rmax
         """
         Limit distance binning up to `rmax`. It may enable linked cells if
-- 
2.43.0


From 6f39e540b6f22edb3936c2cbfdfcd668224ed294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 65/76] fix: apply the global filter to dynamic correlation
 functions

The filter option was ignored by the commands for time correlations,
which computed the total correlation function (or nothing) and no
partial ones.
---
 atooms/postprocessing/api.py | 50 +++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 88fb844..4545b73 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -73,6 +73,12 @@ def _compat(args):
 
     return args
 
+def _filtered(cf, args):
+    """Apply the global filter to the correlation function, if there is one"""
+    if args['filter'] is not None:
+        cf = pp.Filter(cf, args['filter'])
+    return cf
+
 def gr(input_file, dr=0.04, grandcanonical=False, ndim=-1, rmax=-1.0, *input_files, **global_args):
     """Radial distribution function"""
     global_args = _compat(global_args)
@@ -165,10 +171,11 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        pp.MeanSquareDisplacement(th, tgrid=t_grid,
-                                  norigins=global_args['norigins'],
-                                  sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
-                                  fix_cm=fix_cm).do(update=global_args['update'])
+        cf = pp.MeanSquareDisplacement(th, tgrid=t_grid,
+                                       norigins=global_args['norigins'],
+                                       sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
+                                       fix_cm=fix_cm)
+        _filtered(cf, global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
@@ -187,7 +194,8 @@ def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins'])
+        _filtered(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.VelocityAutocorrelation, ids, th,
@@ -216,10 +224,11 @@ def fkt(input_file, tmax=-1.0, tmax_fraction=0.75,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            pp.IntermediateScattering(th, k_grid, t_grid,
-                                      norigins=global_args['norigins'],
-                                      nk=nk, dk=dk, fix_cm=fix_cm).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = pp.IntermediateScattering(th, k_grid, t_grid,
+                                           norigins=global_args['norigins'],
+                                           nk=nk, dk=dk, fix_cm=fix_cm)
+            _filtered(cf, global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.IntermediateScattering, ids, th, k_grid, t_grid,
                     norigins=global_args['norigins'],
@@ -248,10 +257,11 @@ def fskt(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=60,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, k_grid, t_grid, nk, dk=dk,
-                    norigins=global_args['norigins'], fix_cm=fix_cm,
-                    lookup_mb=lookup_mb).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = backend(th, k_grid, t_grid, nk, dk=dk,
+                         norigins=global_args['norigins'], fix_cm=fix_cm,
+                         lookup_mb=lookup_mb)
+            _filtered(cf, global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, k_grid, t_grid, nk, dk=dk,
                     norigins=global_args['norigins'], fix_cm=fix_cm,
@@ -276,8 +286,9 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = backend(th, t_grid, a=a, norigins=global_args['norigins'])
+            _filtered(cf, global_args).do(update=global_args['update'])
         if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
@@ -294,7 +305,8 @@ def alpha2(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins'])
+        _filtered(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.NonGaussianParameter, ids, th, t_grid,
@@ -312,7 +324,8 @@ def qst(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.SelfOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.SelfOverlap(th, t_grid, norigins=global_args['norigins'])
+        _filtered(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.SelfOverlap, ids, th, t_grid,
@@ -330,7 +343,8 @@ def qt(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins'])
+        _filtered(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.CollectiveOverlap, ids, th, t_grid,
-- 
2.43.0


From 5467a6fa411217f6d9a1d830ffd83d0a50036d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 66/76] fix: S(k) between two groups in dimensions other than 2
 and 3

The product over the axes counted the first one twice and the weights
of the second group were those of the first one.
---
 atooms/postprocessing/sk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 21d6c9e..1b9fb0d 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -131,11 +131,11 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
                                               expo_1[..., 1, kvec[1]])
                         else:
                             tmp = weight_0 * expo_0[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            for idim in range(1, ndims):
                                 tmp *= expo_0[..., idim, kvec[idim]]
                             rho_0 = numpy.sum(tmp)
-                            tmp = weight_0 * expo_1[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            tmp = weight_1 * expo_1[..., 0, kvec[0]]
+                            for idim in range(1, ndims):
                                 tmp *= expo_1[..., idim, kvec[idim]]
                             rho_1 = numpy.sum(tmp)
 
-- 
2.43.0


From 5e0896fec6bdccc3452311ce238e359e13662ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 67/76] fix: F(k,t) in dimensions other than 2 and 3

The tabulated exponentials were overwritten by the product over the
axes and the imaginary part of the density was dropped.
---
 atooms/postprocessing/fkt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index ba4d1fb..74826bb 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -306,10 +306,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                     expo_0[..., 1, kvec[1]])
                     else:
                         # Arbitrary dimension (a bit slower)
-                        tmp = expo_0[..., 0, kvec[0]]
+                        tmp = expo_0[..., 0, kvec[0]].copy()
                         for idim in range(1, len(kvec)):
                             tmp *= expo_0[..., idim, kvec[idim]]
-                        rho_0[it][kvec] += numpy.sum(tmp).real
+                        rho_0[it][kvec] = numpy.sum(tmp)
 
                     # Same optimization as above: only calculate rho_1 if needed
                     if self._pos_1 is not self._pos_0:
@@ -322,10 +322,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                         expo_1[..., 1, kvec[1]])
                         else:
                             # Arbitrary dimension (a bit slower)
-                            tmp = expo_1[..., 0, kvec[0]]
+                            tmp = expo_1[..., 0, kvec[0]].copy()
                             for idim in range(1, len(kvec)):
                                 tmp *= expo_1[..., idim, kvec[idim]]
-                            rho_1[it][kvec] += numpy.sum(tmp).real
+                            rho_1[it][kvec] = numpy.sum(tmp)
 
             # Optimization
             if self._pos_1 is self._pos_0:
-- 
2.43.0


From 0ef0f3316cdd359efe87319f392fb3bf05adf476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:50 +0000
Subject: [PATCH 68/76] fix: use the unfolded positions stored in the
 trajectory with two filters

---
 atooms/postprocessing/correlation.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index ef988e2..1fccf29 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -505,6 +505,22 @@ class Correlation(object):
 
         # Dump unfolded positions if requested
         if 'pos-unf' in self.phasespace:
+            if hasattr(self.trajectory[0].particle[0], 'position_unfolded'):
+                # Unfolded positions are present in the trajectory
+                for s in progress(self.trajectory):
+                    # The CM must be computed before applying the filters
+                    if self._fix_cm:
+                        mtot = sum([p.mass for p in s.particle])
+                        cm = sum([p.position_unfolded * p.mass for p in s.particle]) / mtot
+                    for i, pos_unf in enumerate([self._pos_unf_0, self._pos_unf_1]):
+                        si = self._cbk[i](s, *self._cbk_args[i], **self._cbk_kwargs[i])
+                        pos = si.dump('particle.position_unfolded')
+                        if self._fix_cm and len(pos) > 0:
+                            pos = pos - cm
+                        pos_unf.append(pos)
+                return
+
+            # Unfolded positions are not available in the trajectory
             for s in progress(Unfolded(self.trajectory, fixed_cm=self._fix_cm)):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
-- 
2.43.0


From 1be4ba4a08088e0e75dea35e11c3aac47379921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:50 +0000
Subject: [PATCH 69/76] fix: write functions of two variables whose second grid
 is an array

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 1fccf29..58108d6 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -635,7 +635,7 @@ class Correlation(object):
         # Pack grid and value into arrays to dump
         if _is_iterable(self.grid[0]) and len(self.grid) == 2:
             x = numpy.array(self.grid[0]).repeat(len(self.value[0]))
-            y = numpy.array(self.grid[1] * len(self.grid[0]))
+            y = numpy.tile(self.grid[1], len(self.grid[0]))
             z = numpy.array(self.value).flatten()
             dump = numpy.transpose(numpy.array([x, y, z]))
         else:
-- 
2.43.0


From c09e1fdee111284d5cb74cd3437e82405ebb6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:31 +0000
Subject: [PATCH 70/76] fix: commas within brackets in the conditions of
 filters

---
 atooms/postprocessing/filter.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index 33eae77..eeb1e5b 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -21,6 +21,26 @@ __all__ = ['Filter']
 _log = logging.getLogger(__name__)
 
 
+def _split(condition):
+    """Split conditions at commas, except those within brackets or quotes"""
+    conditions, depth, quote = [''], 0, None
+    for char in condition:
+        if quote is not None:
+            if char == quote:
+                quote = None
+        elif char in '"\'':
+            quote = char
+        elif char in '([{':
+            depth += 1
+        elif char in ')]}':
+            depth -= 1
+        if char == ',' and depth == 0 and quote is None:
+            conditions.append('')
+        else:
+            conditions[-1] += char
+    return conditions
+
+
 def Filter(correlation, condition):
 
     def _filter_generic(system, condition):
@@ -48,7 +68,7 @@ def Filter(correlation, condition):
 
     elif correlation.nbodies == 2:
         # We expect up to two logical conditions
-        conditions = condition.split(',')
+        conditions = _split(condition)
 
         # If there is only one, we filter only the first group of
         # particles, the second one includes all the particles of the
-- 
2.43.0


From 359cf701978119da3ddd499245ff8bd265071fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:31 +0000
Subject: [PATCH 71/76] fix: refuse two conditions on one-body correlations

---
 atooms/postprocessing/filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index eeb1e5b..2643777 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -64,6 +64,8 @@ def Filter(correlation, condition):
     correlation.tag_description = condition
 
     if correlation.nbodies == 1:
+        if len(_split(condition)) > 1:
+            raise ValueError('too many conditions for a 1 body-correlation function')
         correlation.add_filter(_filter_generic, condition)
 
     elif correlation.nbodies == 2:
-- 
2.43.0


From eaf89b3198258bb821dc089054540ba96f77862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:46 +0000
Subject: [PATCH 72/76] fix: do not overwrite g(r) files when looking for the
 bond angle cutoffs

---
 atooms/postprocessing/ba.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 1c7219b..ef902b7 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -28,7 +28,8 @@ def _default_rcut(th):
 
     ids = distinct_species(th[0].particle)
     gr = Partial(RadialDistributionFunction, ids, th, dr=0.1)
-    gr.do(update=False)
+    # The g(r) is not written, it could overwrite the one of the user
+    gr.compute()
     rcut = {}
     for isp in ids:
         for jsp in ids:
-- 
2.43.0


From ecd0b3fc7b04ba23bedc58f282a1dba538b2780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:36 +0000
Subject: [PATCH 73/76] fix: accept a grid of wave-numbers set after
 construction

---
 atooms/postprocessing/fourierspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 4399e83..dbb0789 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -195,9 +195,12 @@ class FourierSpaceCorrelation(Correlation):
         # We skip setup if the kgrid is already set up and we are not
         # asking to rebuild it.
         # This allows to copy over the kvectors and kgrid
-        if not rebuild and self.kgrid is not None:
+        if not rebuild and self.kgrid is not None and len(self._kvectors) > 0:
             return
 
+        # The grid may have been set after construction
+        kgrid = self.kgrid
+
         # We subclass compute to define k grid at compute time
         # Find k-norms grid and store it a self.kgrid (the norms are sorted)
         variables = self.short_name.split('(')[1][:-1]
@@ -209,7 +212,7 @@ class FourierSpaceCorrelation(Correlation):
 
         # Always start from the requested grid, in case we call compute twice
         if not self._has_kgrid_requested:
-            self._kgrid_requested = self.kgrid
+            self._kgrid_requested = self.kgrid if kgrid is None else kgrid
             self._has_kgrid_requested = True
         self.kgrid = self._kgrid_requested
 
-- 
2.43.0


From 385177ae7dff6ae4c08b0b0ac9e91776b54ae65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 74/76] fix: keep the wave-vectors given by the user when the
 cell changes

---
 atooms/postprocessing/fourierspace.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index dbb0789..d236dc5 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -181,6 +181,7 @@ class FourierSpaceCorrelation(Correlation):
         self.kgrid = None
         self._kgrid_requested = None
         self._has_kgrid_requested = False
+        self._has_kvectors_requested = False
         self.k0 = []
         self._kvectors = []
         self._koffset = 0
@@ -198,6 +199,11 @@ class FourierSpaceCorrelation(Correlation):
         if not rebuild and self.kgrid is not None and len(self._kvectors) > 0:
             return
 
+        # The wave-vectors given by the user are multiples of k0
+        if self._has_kvectors_requested:
+            self.k0 = 2*math.pi/self.trajectory[sample].cell.side
+            return
+
         # The grid may have been set after construction
         kgrid = self.kgrid
 
@@ -325,6 +331,7 @@ class FourierSpaceCorrelation(Correlation):
     @kvectors.setter
     def kvectors(self, kvectors):
         # Smallest kvector
+        self._has_kvectors_requested = True
         sample = 0
         self.k0 = 2*math.pi/self.trajectory[sample].cell.side
 
-- 
2.43.0


From b4d52ac46f13c5bce99adf0f03ec967ebc6114e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:17 +0000
Subject: [PATCH 75/76] fix: report the wave-vectors of the first frame when
 the cell changes

---
 atooms/postprocessing/fourierspace.py | 7 ++++++-
 atooms/postprocessing/ik.py           | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index d236dc5..443a64f 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -190,7 +190,12 @@ class FourierSpaceCorrelation(Correlation):
         # Setup grid once. If cell changes we'll call it again
         self._setup()
         # Now compute
-        return super(FourierSpaceCorrelation, self).compute()
+        result = super(FourierSpaceCorrelation, self).compute()
+        # If the cell changed along the way, report the wave-vectors
+        # of the first frame, on which the grid is based
+        if numpy.any(self.k0 != 2*math.pi/self.trajectory[0].cell.side):
+            self._setup(rebuild=True)
+        return result
 
     def _setup(self, sample=0, rebuild=False):
         # We skip setup if the kgrid is already set up and we are not
diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 960925c..019d7f5 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -49,6 +49,7 @@ class SpectralDensity(FourierSpaceCorrelation):
 
     def _compute(self):
         nsteps = len(self._pos)
+        kgrid = self.kgrid
         # Setup k vectors and tabulate rho
         cnt = [0 for k in self.kgrid]
         # Note: actually rho_av is not calculated because it is negligible
@@ -81,7 +82,7 @@ class SpectralDensity(FourierSpaceCorrelation):
 
         # Normalization.
         volume = numpy.average([s.cell.volume for s in self.trajectory])
-        self.grid = self.kgrid
+        self.grid = kgrid
         self.value = [(rho2_av[kk] / cnt[kk] - rho_av[kk]*rho_av[kk].conjugate() / cnt[kk]**2).real / volume
                       for kk in range(len(self.grid))]
         self.value_nonorm = [rho2_av[kk].real / cnt[kk]
-- 
2.43.0


From f7625a1014c18cea3f6f30eb8462ea53558b577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:22 +0000
Subject: [PATCH 76/76] fix: use a grid of distances set after the construction
 of g(r)

---
 atooms/postprocessing/gr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index af9395b..122a280 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -90,7 +90,8 @@ class RadialDistributionFunctionLegacy(Correlation):
 
     def __init__(self, trajectory, rgrid=None, norigins=None, dr=0.04, ndim=-1, rmax=-1.0):
         Correlation.__init__(self, trajectory, rgrid, norigins=norigins)
-        self._rgrid = rgrid
+        self._rgrid = None
+        self._has_rgrid = False
         # An integer would be taken as a number of points
         self.dr = float(dr)
         self.rmax = rmax
@@ -104,6 +105,8 @@ class RadialDistributionFunctionLegacy(Correlation):
         Deferred grid setup
         """
         # Start from the requested grid, in case we call compute twice
+        if not self._has_rgrid:
+            self._rgrid, self._has_rgrid = self.grid, True
         self.grid = self._rgrid
         if self.grid is None:
             # Get side of cell. If the system does not have a cell,
-- 
2.43.0

