From 10accd52f4ea17a14fe64e031fb9e15e08f314ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 01/52] fix: accept a fractional number of time origins given
 as a string

---
 atooms/postprocessing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 9010633..93a17f5 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -158,7 +158,7 @@ def adjust_skip(trajectory, n_origins=None):
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
             skip = int(nbl / float(n_origins)) * trajectory.block_size
-        elif int(n_origins) == 1:
+        elif float(n_origins) == 1:
             skip = len(trajectory.steps)
         else:
             # A float between 0 and 1
-- 
2.43.0


From e3cd5f2b8b764267469f28c02231fa3f826298a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 02/52] fix: chi4qs --fast referred to a nonexistent class

---
 atooms/postprocessing/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index f942436..b2656f3 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -256,7 +256,7 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
     global_args = _compat(global_args)
     func = _func_db[func]
     if global_args['fast']:
-        backend = pp.Chi4SelfOverlapOpti
+        backend = pp.Chi4SelfOverlapOptimized
     else:
         backend = pp.Chi4SelfOverlap
 
-- 
2.43.0


From 9769fc4fb53bc851870c614dc31d08dc65eeccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 03/52] fix: optimized chi4 imported a nonexistent f90 module
 and divided by zero counts

---
 atooms/postprocessing/chi4t.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index d1e0c72..0581036 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -99,13 +99,13 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
 
     def _compute(self):
         try:
-            from atooms.postprocessing.realspace_wrap import realspace_module
+            from atooms.postprocessing.realspace_wrap import compute
         except ImportError:
             _log.error('f90 wrapper missing or not functioning')
             raise
 
         def f(x, y):
-            return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
+            return compute.self_overlap(x, y, numpy.array(self.a_square))
 
         self.grid = []
         self.average.tag, self.variance.tag = self.tag, self.tag
@@ -117,7 +117,10 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
                 A += w
                 cnt += 1
             dt = self.trajectory.steps[off+i] - self.trajectory.steps[off]
-            A_av, A2_av = A/cnt, A2/cnt
+            if cnt > 0:
+                A_av, A2_av = A / cnt, A2 / cnt
+            else:
+                A_av, A2_av = 0, 0
             self.grid.append(dt * self.trajectory.timestep)
             self.value.append((A2_av - A_av**2) / self._pos_unf[0].shape[0])
             self.average.value.append(A_av)
-- 
2.43.0


From 5397fe06ab9ce568d5b2a84e5b83b2db0ac6ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 04/52] fix: velocity autocorrelation with a default time grid
 or a path to the trajectory

---
 atooms/postprocessing/vacf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index b0a7657..2f23285 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -23,8 +23,8 @@ class VelocityAutocorrelation(Correlation):
     def __init__(self, trajectory, tgrid=None, tsamples=30, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
-            self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+            self.grid = linear_grid(0.0, self.trajectory.total_time * 0.10, tsamples)
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From 232e64e0518d9e07fb2cb4d4c63ef65605e54901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 05/52] fix: self overlap with a path to the trajectory

---
 atooms/postprocessing/qt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index 111f088..addd2e0 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -73,7 +73,7 @@ class SelfOverlap(Correlation):
                  tsamples=60):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
-            self.grid = logx_grid(0.0, trajectory.total_time * 0.75, tsamples)
+            self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
         self.a_square = a**2
 
-- 
2.43.0


From 3c0ee663d79d98ec174377ac3ee20e5e09c11b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 06/52] fix: velocity and stress autocorrelations ignored the
 number of time origins

---
 atooms/postprocessing/sacf.py | 2 +-
 atooms/postprocessing/vacf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index e26682e..ef611cb 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -46,7 +46,7 @@ class StressAutocorrelation(Correlation):
 
         self._get_stress()
         V = self.trajectory.read(0).cell.volume
-        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.trajectory.block_size,
+        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._stress)
         self.value = [x / V for x in self.value]
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 2f23285..0cf33e6 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -30,7 +30,7 @@ class VelocityAutocorrelation(Correlation):
         def f(x, y):
             return numpy.sum(x * y) / float(x.shape[0])
         self.grid, self.value = gcf_offset(f, self._discrete_tgrid,
-                                           self.trajectory.block_size,
+                                           self.skip,
                                            self.trajectory.steps,
                                            self._vel)
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From 406a6d6e8a79c17d30907f6ded996b9bcbc8d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 07/52] fix: number of filters could exceed the number of
 bodies

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b28e6e8..5a2ecd7 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -290,7 +290,7 @@ class Correlation(object):
 
     def add_filter(self, cbk, *args, **kwargs):
         """Add filter callback `cbk` along with positional and keyword arguments"""
-        if len(self._cbk) > self.nbodies:
+        if len(self._cbk) >= self.nbodies:
             raise ValueError('number of filters cannot exceed n. of bodies')
         self._cbk.append(cbk)
         self._cbk_args.append(args)
-- 
2.43.0


From 74c74172c37b2400afe3a303c235ae8a006991de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 08/52] fix: reset the particle arrays when compute() is called
 again

---
 atooms/postprocessing/correlation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 5a2ecd7..774cdab 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -310,7 +310,14 @@ class Correlation(object):
         Dump positions and/or velocities at different time frames as a
         list of numpy array.
         """
-        # TODO: what happens if we call compute twice?? Shouldnt we reset the arrays?
+        # Reset the arrays, in case compute() is called more than once
+        self._unfolded = None
+        self._pos, self._vel, self._ids, self._pos_unf = [], [], [], []
+        self._pos_0, self._pos_1 = [], []
+        self._vel_0, self._vel_1 = [], []
+        self._ids_0, self._ids_1 = [], []
+        self._pos_unf_0, self._pos_unf_1 = [], []
+
         # Ensure phasespace is a list.
         # It may not be a class variable anymore after this
         if not isinstance(self.phasespace, list) and \
@@ -404,6 +411,8 @@ class Correlation(object):
         if self._weight is None:
             return
 
+        self._weight = []
+
         # Dump arrays of weights
         for s in progress(self.trajectory):
             # Apply filter if there is one
-- 
2.43.0


From 10d521927348c77c2268290dda0ca03f37eb9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 09/52] fix: reset the chi4 results when compute() is called
 again

---
 atooms/postprocessing/chi4t.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 0581036..1131db1 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -55,7 +55,8 @@ class Chi4SelfOverlap(Correlation):
             return self_overlap(x, y, self.a_square).sum()
 
         side = self.trajectory.read(0).cell.side
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         # At this stage, we can copy the tags
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
@@ -107,7 +108,8 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         def f(x, y):
             return compute.self_overlap(x, y, numpy.array(self.a_square))
 
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-- 
2.43.0


From 6e73cabe772e08fb8ab3899406c2c54a5e7d6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 10/52] fix: start again from the input grid when compute() is
 called again

---
 atooms/postprocessing/correlation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 774cdab..50c7cc6 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -202,6 +202,7 @@ class Correlation(object):
         self._fix_cm = fix_cm
         self._unfolded = None
         self.grid = grid
+        self._grid_input, self._grid_output = grid, None
         self.value = []
         self.analysis = {}
         self.comments = None  # can be modified by user at run time
@@ -507,6 +508,11 @@ class Correlation(object):
         This method sets the `self.grid` and `self.value` variables,
         which are also returned.
         """
+        # Start again from the input grid if compute() is called more than once
+        if self._grid_output is not None and self.grid is self._grid_output:
+            self.grid = self._grid_input
+        self._grid_input = self.grid
+
         _log.info('setup arrays for %s', self.tag_description)
         t = [Timer(), Timer()]
         t[0].start()
@@ -520,6 +526,7 @@ class Correlation(object):
         t[1].start()
         self._compute()
         t[1].stop()
+        self._grid_output = self.grid
 
         _log.info('output file %s', self._output_file)
         _log.info('done %s for %s in %.1f sec [setup:%.0f%%, compute: %.0f%%]',
-- 
2.43.0


From 489bcc0e8e9df46043da917d4898ca7726d45029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 11/52] fix: Fourier-space compute() did not return the grid
 and the values

---
 atooms/postprocessing/fourierspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 9e8a36f..c30cd7c 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -184,7 +184,7 @@ class FourierSpaceCorrelation(Correlation):
         # Setup grid once. If cell changes we'll call it again
         self._setup()
         # Now compute
-        super(FourierSpaceCorrelation, self).compute()
+        return super(FourierSpaceCorrelation, self).compute()
 
     def _setup(self, sample=0):
         # We skip setup if the kgrid is already set up and we are not
-- 
2.43.0


From 605958f9ed3058453cd93b04e177c3add37d9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 12/52] fix: do not modify the input grid of wave-numbers

---
 atooms/postprocessing/fourierspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index c30cd7c..4584b6d 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -214,7 +214,8 @@ class FourierSpaceCorrelation(Correlation):
                 self.kgrid = linear_grid(min(self.k0), self.kmax, self.ksamples)
         else:
             # Sort, since code below depends on kgrid[0] being the smallest k-value.
-            self.kgrid.sort()
+            # We work on a copy because the input grid belongs to the caller.
+            self.kgrid = sorted(self.kgrid)
             # If the first wave-vector is negative we replace it by k0
             if self.kgrid[0] < 0.0:
                 self.kgrid[0] = min(self.k0)
-- 
2.43.0


From f7f92e27167dea20b72716c14100f6b08dde8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 13/52] fix: tabulate exponentials up to the largest component
 of the input k-vectors

---
 atooms/postprocessing/fourierspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 4584b6d..18b3fc7 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -322,7 +322,7 @@ class FourierSpaceCorrelation(Correlation):
                 rounded = numpy.rint(kvec / self.k0)
                 self._kvectors[-1].append(numpy.array(rounded, dtype=int))
                 # Update shift
-                shift = min(shift, int(min(rounded)))
+                shift = min(shift, -int(max(abs(rounded))))
 
         # Shift to make all array indices start from 0
         self._koffset = int(abs(shift)) + 1
-- 
2.43.0


From 41b3d827fb51695e6e241806e282da85f06c2191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 14/52] fix: do not reset the seed of the global random number
 generator

---
 atooms/postprocessing/fourierspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 18b3fc7..c528728 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -227,13 +227,13 @@ class FourierSpaceCorrelation(Correlation):
         # Decimate
         # Setting the seed here once so as to get the same set
         # independent of filters.
-        random.seed(1)
+        rng = random.Random(1)
         # Pick up a random, unique set of nk vectors out ot the avilable ones
         # without exceeding maximum number of vectors in shell nkmax
         # self.kgrid, self.selection = self._decimate_k()
         for i, klist in enumerate(self._kvectors):
             nk = min(self.nk, len(klist))
-            self._kvectors[i] = random.sample(klist, nk)
+            self._kvectors[i] = rng.sample(klist, nk)
 
         # Define the grid using the actual kvectors
         # average k norms appear after decimation.
-- 
2.43.0


From 4846e3fb29ac06a69ae30397f966291d4aaa1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 15/52] fix: fast structure factor used wrong wave-vectors and
 ignored weights and cross correlations

---
 atooms/postprocessing/sk.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index f81bb33..4762611 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -184,6 +184,11 @@ class StructureFactorFast(StructureFactorLegacy):
             _log.error('f90 wrapper missing or not functioning')
             raise
 
+        # The f90 kernel only handles densities of one set of particles in 3d
+        if self._weight is not None or self._pos_0 is not self._pos_1 or len(self.k0) != 3:
+            super(StructureFactorFast, self)._compute()
+            return
+
         nsteps = len(self._pos_0)
         kgrid = self.kgrid
 
@@ -222,7 +227,7 @@ class StructureFactorFast(StructureFactorLegacy):
                 for i, kvec in enumerate(klist):
                     ikvec[:, i] = kvec
                 rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
-                fourierspace_module.sk_bare(expo_0, ikvec, rho)
+                fourierspace_module.sk_bare(expo_0, ikvec + 1, rho)
                 rho_0 = rho
                 rho_1 = rho
                 rho2_av[k] += numpy.sum(rho_0 * rho_1.conjugate())
-- 
2.43.0


From 3ce4de5753060d98e2927f8dc3fd566c08547904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 16/52] fix: spectral density used array indices instead of the
 norms of the wave-vectors

---
 atooms/postprocessing/ik.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 2053ea0..a431370 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -8,7 +8,7 @@ from atooms.trajectory import Trajectory
 from atooms.trajectory.utils import is_cell_variable
 
 from .progress import progress
-from .fourierspace import FourierSpaceCorrelation, expo_sphere
+from .fourierspace import FourierSpaceCorrelation, expo_sphere, _k_norm
 
 __all__ = ['SpectralDensity']
 
@@ -54,7 +54,7 @@ class SpectralDensity(FourierSpaceCorrelation):
             expo = expo_sphere(self.k0, self._koffset, self._pos[i])
             for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
-                    knorm = numpy.dot(kvec, kvec)**0.5
+                    knorm = _k_norm(kvec, self.k0, self._koffset)
                     Ri = self._radius[i]
                     mk = 4 * numpy.pi / knorm**3 * \
                         (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
-- 
2.43.0


From ba3e82e3a1fe8eecf09b6448e535c0f4a6200df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 17/52] fix: spectral density must use the radii of the same
 frame as the positions

---
 atooms/postprocessing/ik.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index a431370..9045917 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -36,7 +36,9 @@ class SpectralDensity(FourierSpaceCorrelation):
         self._is_cell_variable = None
         # TODO: check step consistency 06.09.2017
         with Trajectory(trajectory_radius) as th:
-            self._radius = [s.dump('particle.radius') for s in th]
+            steps = list(th.steps)
+            self._radius = [th[steps.index(step)].dump('particle.radius')
+                            for step in self.trajectory.steps]
 
     def _compute(self):
         nsteps = len(self._pos)
-- 
2.43.0


From c34d7b5761e8592e04a49b40af372e6bc07e9086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 18/52] fix: ik did nothing with an explicit radius trajectory
 and mixed up multiple files

---
 atooms/postprocessing/api.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index b2656f3..f9199d2 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -136,12 +136,11 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
     for th in _get_trajectories([input_file] + list(input_files), global_args):
-        if trajectory_radius is None:
-            trajectory_radius = input_file
-            pp.SpectralDensity(th, trajectory_radius,
-                               kgrid=kgrid, norigins=global_args['norigins'],
-                               kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                               ksamples=ksamples).do(update=global_args['update'])
+        radius = trajectory_radius if trajectory_radius is not None else th.filename
+        pp.SpectralDensity(th, radius,
+                           kgrid=kgrid, norigins=global_args['norigins'],
+                           kmin=kmin, kmax=kmax, nk=nk, dk=dk,
+                           ksamples=ksamples).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
-- 
2.43.0


From c4c63f1286cceb68c3d438845781c256b85ba541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 19/52] fix: write() of scattering functions without an output
 path or before analyze()

---
 atooms/postprocessing/fkt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 6912971..84cd17f 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -28,7 +28,7 @@ def _write_tau(out, db):
     out.write('# title: relaxation times tau(k) as a function of k\n')
     out.write('# columns: k, tau(k)\n')
     out.write('# note: tau is the time at which the correlation function has decayed to 1/e\n')
-    for k, tau in db['relaxation times tau'].items():
+    for k, tau in db.get('relaxation times tau', {}).items():
         if tau is None:
             out.write('%g\n' % k)
         else:
@@ -167,7 +167,7 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
 
@@ -370,6 +370,6 @@ class IntermediateScattering(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
-- 
2.43.0


From bfae3f1cf06482752ac3285efa9b8bee244b6225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 20/52] fix: need_update() without an output path

---
 atooms/postprocessing/correlation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 50c7cc6..d57c90d 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -300,7 +300,8 @@ class Correlation(object):
     def need_update(self):
         """Check if the trajectory file is newer than the output file"""
         need = True
-        if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
+        if self._output_file is not None and \
+           os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
             if os.path.getmtime(self.trajectory.filename) < \
                os.path.getmtime(self._output_file):
                 need = False
-- 
2.43.0


From 4b3d2e1441f2a9d5049888b75798eb64f1db669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 21/52] fix: more than 50 neighbors overflowed the buffer of
 the bond angle distribution

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 2b9a724..15bc85a 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -95,7 +95,7 @@ class BondAngleDistribution(Correlation):
             # system = change_species(system, 'F')  # species are in fortran style
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
-            neighbors = numpy.ndarray(50, dtype=numpy.int32)
+            neighbors = numpy.ndarray(len(self._pos_1[i]), dtype=numpy.int32)
             for idx in range(len(self._pos_0[i])):
                 isp = self._ids_0[i][idx]
                 compute.neighbors('C', side, self._pos_0[i][idx],
-- 
2.43.0


From 6e92eedc87063a2bee4453194aecf0c356bc9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 22/52] fix: computing bond angles wrote radial distribution
 functions to file

---
 atooms/postprocessing/ba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 15bc85a..28e7c90 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -28,7 +28,7 @@ def _default_rcut(th):
 
     ids = distinct_species(th[0].particle)
     gr = Partial(RadialDistributionFunction, ids, th, dr=0.1)
-    gr.do(update=False)
+    gr.compute()
     rcut = {}
     for isp in ids:
         for jsp in ids:
@@ -79,7 +79,7 @@ class BondAngleDistribution(Correlation):
         ids = distinct_species(self.trajectory[0].particle)
         if self.rcut is None:
             rcut = _default_rcut(self.trajectory)
-            self.rcut = numpy.ndarray((len(ids), len(ids)))
+            self.rcut = numpy.zeros((len(ids), len(ids)))
             for species_pair in rcut:
                 self.rcut[ids.index(species_pair[0]), ids.index(species_pair[1])] = rcut[species_pair]
         else:
-- 
2.43.0


From d84c7b422e8821fe814fe5dd600b38a7ad7e97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 23/52] fix: filtering added builtins to the attributes of the
 particles

---
 atooms/postprocessing/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index 72efb0c..33eae77 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -28,7 +28,7 @@ def Filter(correlation, condition):
         s = copy.copy(system)
         s.particle = []
         for particle in system.particle:
-            if eval(condition, particle.__dict__):
+            if eval(condition, dict(particle.__dict__)):
                 s.particle.append(particle)
         return s
 
-- 
2.43.0


From db6f67f2e3504818a1ae32e1837f6491735f4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 24/52] fix: acf.py referred to an undefined module name

---
 bin/acf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/acf.py b/bin/acf.py
index 2f58401..983a560 100755
--- a/bin/acf.py
+++ b/bin/acf.py
@@ -2,7 +2,7 @@
 
 import sys
 import numpy
-import atooms.postprocessing
+import atooms.postprocessing as postprocessing
 from atooms.postprocessing.helpers import linear_grid, logx_grid
 
 def main(fname):
-- 
2.43.0


From bfe020896caf222d15424f60603c62dbc149f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 25/52] fix: linked cells used the numpy.int alias removed from
 numpy

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index d9f496a..9459705 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -123,7 +123,7 @@ class LinkedCells(object):
 
     def _index(self, pos):
         x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(numpy.int)
+        return x.astype(int)
 
     def on_border(self, pos):
         index = list(self._index(pos))
@@ -179,7 +179,7 @@ class LinkedCells(object):
         if as_array:
             npart = len(self.neighbors)
             number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=numpy.int)
+            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From 05456de0e31bbb029e3f733d91157a179be28f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 26/52] fix: linked cells did not follow changes of the
 simulation box

---
 atooms/postprocessing/linkedcells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 9459705..87969d1 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -135,7 +135,7 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted:
+        if not self._is_adjusted or numpy.any(self.box != box):
             self.adjust(box, newton=other is None and newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
-- 
2.43.0


From 7924a3b0de2ea6a90b7c06861b5ae5c3b6e98172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 27/52] fix: msd ignored fix_cm for partial correlations

---
 atooms/postprocessing/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index f9199d2..e2817b3 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -164,7 +164,8 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
-                    rmax=rmsd_max, no_offset=no_offset).do(update=global_args['update'])
+                    rmax=rmsd_max, no_offset=no_offset,
+                    fix_cm=fix_cm).do(update=global_args['update'])
 
 def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
          tsamples=30, func='linear', *input_files, **global_args):
-- 
2.43.0


From e1dbf232408bd1e28d3af0d8d436409e56b8e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 28/52] fix: g(r) kernels with neighbors wrote out of bounds of
 the histogram

---
 atooms/postprocessing/realspace.f90 | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 835f3e1..610255e 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -286,8 +286,10 @@ contains
        end do
        ! Bin distances
        do j=1,k
-          bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (distances(j) < rmax) then
+             bin = floor(distances(j) / dr) + 1
+             hist(bin) = hist(bin) + 1
+          end if
        end do
     end do
     ! Bins
@@ -331,8 +333,10 @@ contains
        end do
        ! Bin distances
        do j=1,k
-          bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (distances(j) < rmax) then
+             bin = floor(distances(j) / dr) + 1
+             hist(bin) = hist(bin) + 1
+          end if
        end do
     end do
     ! Bins
@@ -387,8 +391,10 @@ contains
        end do
        ! Bin distances
        do j=1,k
-          bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (distances(j) < rmax) then
+             bin = floor(distances(j) / dr) + 1
+             hist(bin) = hist(bin) + 1
+          end if
        end do
     end do
     ! Bins
@@ -432,8 +438,10 @@ contains
        end do
        ! Bin distances
        do j=1,k
-          bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (distances(j) < rmax) then
+             bin = floor(distances(j) / dr) + 1
+             hist(bin) = hist(bin) + 1
+          end if
        end do
     end do
     ! Bins
-- 
2.43.0


From d1199346069eec487bb0c5b028f4307749dfe2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 29/52] fix: generalized correlation function missed the last
 time origin

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index d57c90d..2bb4b38 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -63,7 +63,7 @@ def gcf(f, grid, skip, t, x):
     cnt = defaultdict(int)
     for i in grid:
         # Note: len(x) gives x.shape[0]
-        for i0 in progress(range(0, len(x)-i-1, skip)):
+        for i0 in progress(range(0, len(x)-i, skip)):
             # Get the actual time difference
             dt = t[i0+i] - t[i0]
             cf[dt] += f(x[i0+i], x[i0])
-- 
2.43.0


From efd6ae65c10bca07e1397da3bdaac816fbe0d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 30/52] fix: fix_cm was ignored with two filters

---
 atooms/postprocessing/correlation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 2bb4b38..70a4f3a 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -472,11 +472,18 @@ class Correlation(object):
             self._vel_1 = self._vel
             self._ids_0 = self._ids
             self._ids_1 = self._ids
+            self._pos_unf_0 = self._pos_unf
+            self._pos_unf_1 = self._pos_unf
             return
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
-            ids = distinct_species(self.trajectory[0].particle)
-            for s in progress(self.trajectory):
+            # Fix the center of mass as for one-body correlations
+            th = self.trajectory
+            if 'pos' in self.phasespace and self._fix_cm:
+                th = Unfolded(self.trajectory, fixed_cm=True)
+                th.add_callback(fold)
+            ids = distinct_species(th[0].particle)
+            for s in progress(th):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 if 'pos' in self.phasespace:
@@ -495,7 +502,7 @@ class Correlation(object):
 
         # Dump unfolded positions if requested
         if 'pos-unf' in self.phasespace:
-            for s in progress(Unfolded(self.trajectory)):
+            for s in progress(Unfolded(self.trajectory, fixed_cm=self._fix_cm)):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 self._pos_unf_0.append(s0.dump('pos'))
-- 
2.43.0


From b469fbe9f76e61260658813e3c5709d9176fe2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 31/52] fix: sk failed with a weight trajectory and multiple
 files

---
 atooms/postprocessing/api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index e2817b3..00bd83c 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -110,9 +110,8 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
                      kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
         if global_args['filter'] is not None:
             cf = pp.Filter(cf, global_args['filter'])
-        if weight_trajectory is not None:
-            weight_trajectory = TrajectoryXYZ(weight_trajectory)
-        cf.add_weight(trajectory=weight_trajectory,
+        th_weight = TrajectoryXYZ(weight_trajectory) if weight_trajectory is not None else None
+        cf.add_weight(trajectory=th_weight,
                       field=weight,
                       fluctuations=weight_fluctuations)
         cf.do(update=global_args['update'])
@@ -123,7 +122,7 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
                          norigins=global_args['norigins'],
                          kmin=kmin, kmax=kmax, nk=nk, dk=dk,
                          ksamples=ksamples)
-            cf.add_weight(trajectory=weight_trajectory,
+            cf.add_weight(trajectory=th_weight,
                           field=weight,
                           fluctuations=weight_fluctuations)
             cf.do(update=global_args['update'])
-- 
2.43.0


From 4bd47c9b12726807c2ad88d67d0ba6e3f2b04d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 32/52] fix: chi4qs did nothing with one species and ignored
 no_partial

---
 atooms/postprocessing/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 00bd83c..de7267e 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -266,10 +266,10 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        if total:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
-        if not total and len(ids) > 1:
+        if total or len(ids) == 1:
+            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
+        if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
 
-- 
2.43.0


From 66395c7a9d979498de08fbe8692063e838775688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 33/52] fix: a single time origin given as an integer did not
 disable the offsets

---
 atooms/postprocessing/alpha2.py | 2 +-
 atooms/postprocessing/chi4t.py  | 2 +-
 atooms/postprocessing/msd.py    | 2 +-
 atooms/postprocessing/qt.py     | 4 ++--
 atooms/postprocessing/s4kt.py   | 2 +-
 atooms/postprocessing/sacf.py   | 2 +-
 atooms/postprocessing/vacf.py   | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index 9dc79f5..a772dc5 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -25,7 +25,7 @@ class NonGaussianParameter(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, self.trajectory.total_time * 0.75, nsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1' and norigins != 1)
 
     def _compute(self):
         def alpha_2(x, y):
diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 1131db1..fae85ac 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -39,7 +39,7 @@ class Chi4SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1' and norigins != 1)
         self.a_square = a**2
         self.average = Correlation(self.trajectory, self.grid)
         self.average.short_name = 'Q^u(t)'
diff --git a/atooms/postprocessing/msd.py b/atooms/postprocessing/msd.py
index 12a52ac..c8999cc 100644
--- a/atooms/postprocessing/msd.py
+++ b/atooms/postprocessing/msd.py
@@ -71,7 +71,7 @@ class MeanSquareDisplacement(Correlation):
         # Setup time grid
         # We disable offsets if only one time origin is requested or if no_offset is True
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid,
-                                            offset=self._norigins != '1' and not self._no_offset)
+                                            offset=self._norigins != '1' and self._norigins != 1 and not self._no_offset)
         # Note that the grid is redefined
         self.grid, self.value = gcf_offset(msd, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index addd2e0..efcd867 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -50,7 +50,7 @@ class CollectiveOverlap(Correlation):
         self.a_square = a**2
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1' and norigins != 1)
 
     def _compute(self):
         def f(x, y):
@@ -74,7 +74,7 @@ class SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1' and norigins != 1)
         self.a_square = a**2
 
     def _compute(self):
diff --git a/atooms/postprocessing/s4kt.py b/atooms/postprocessing/s4kt.py
index 715ce68..3ede34b 100644
--- a/atooms/postprocessing/s4kt.py
+++ b/atooms/postprocessing/s4kt.py
@@ -34,7 +34,7 @@ class S4ktOverlap(FourierSpaceCorrelation):
         FourierSpaceCorrelation.__init__(self, trajectory, [tgrid, kgrid], norigins,
                                          nk, dk, kmin, kmax, ksamples)
         # Setup time grid
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1' and norigins != 1)
         self.a_square = a**2
 
     def _tabulate_W(self, kgrid, selection, t_off, t, skip):
diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index ef611cb..0d7c7a8 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -23,7 +23,7 @@ class StressAutocorrelation(Correlation):
 
     def __init__(self, trajectory, tgrid, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1' and norigins != 1)
 
     def _get_stress(self):
         ndims = 3
diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 0cf33e6..24187a2 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -24,7 +24,7 @@ class VelocityAutocorrelation(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, self.trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1' and norigins != 1)
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From f8ce9e3c020f863714a849904bbf09d8c1c076a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 34/52] fix: chi4 missed the last time origin

---
 atooms/postprocessing/chi4t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index fae85ac..a136a33 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -61,7 +61,7 @@ class Chi4SelfOverlap(Correlation):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0 + i])
                 A2 += w**2
                 A += w
@@ -113,7 +113,7 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0+i])
                 A2 += w**2
                 A += w
-- 
2.43.0


From df895023a4ce8db7deac533683756aa4fd8ddb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 35/52] fix: fixing the center of mass modified the input
 trajectory

---
 atooms/postprocessing/correlation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 70a4f3a..b9907d5 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -4,6 +4,7 @@
 """Base correlation function."""
 
 import os
+import copy
 import logging
 from collections import defaultdict
 
@@ -391,9 +392,12 @@ class Correlation(object):
                             cm += p.position_unfolded * p.mass
                             mtot += p.mass
                         cm /= mtot
-                        # Subtract it
+                        # Subtract it, without modifying the particles
+                        # which are stored in the trajectory
+                        s = copy.copy(s)
+                        s.particle = [copy.copy(p) for p in s.particle]
                         for p in s.particle:
-                            p.position_unfolded -= cm
+                            p.position_unfolded = p.position_unfolded - cm
                     # Apply filter if there is one
                     # This must be done after the CM has been fixed
                     if len(self._cbk) > 0:
-- 
2.43.0


From 5fcdc44a56ddd72ed184390e93a6cb5bd2fa876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 36/52] fix: read() did not load correlation functions of two
 variables

---
 atooms/postprocessing/correlation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b9907d5..04f7f5e 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -587,7 +587,10 @@ class Correlation(object):
         with open(self._output_file, 'r') as inp:
             x = numpy.loadtxt(inp, unpack=True)
             if len(x) == 3:
-                _log.warn("cannot read 3-columns files yet in %s", self._output_file)
+                # The second grid is repeated for every entry of the first one
+                n = len(x[1]) // numpy.count_nonzero(x[1] == x[1][0])
+                self.grid = [list(x[0][::n]), list(x[1][:n])]
+                self.value = [list(v) for v in x[2].reshape(-1, n)]
             elif len(x) == 2:
                 self.grid, self.value = x
             else:
-- 
2.43.0


From 027e85af2a8465518de19446dd8e9cd9ebb8f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 37/52] fix: susceptibility was not initialized as a
 correlation function and could not be written

---
 atooms/postprocessing/susceptibility.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/susceptibility.py b/atooms/postprocessing/susceptibility.py
index 0ee2bb8..a42fe3b 100644
--- a/atooms/postprocessing/susceptibility.py
+++ b/atooms/postprocessing/susceptibility.py
@@ -17,7 +17,10 @@ class Susceptibility(Correlation):
         """The first positional argument must be the trajectory instance."""
         # Instantiate correlation objects
         # with args passed upon construction
-        self.trajectory = trajectory
+        super(Susceptibility, self).__init__(trajectory, None, norigins=norigins)
+        self.symbol = 'chi_{}'.format(corr_cls.symbol)
+        self.short_name = 'chi_{}'.format(corr_cls.short_name)
+        self.long_name = 'susceptibility of {}'.format(corr_cls.long_name)
         self.nbodies = corr_cls.nbodies
         self.phasespace = []  # nothing to dump
         self._corr_cls = corr_cls
@@ -45,3 +48,4 @@ class Susceptibility(Correlation):
             yi = numpy.array(db[xi])
             self.grid.append(xi)
             self.value.append(yi.var() / N)
+        return self.grid, self.value
-- 
2.43.0


From 84437101b87e34570bc8525104b814e996bfa37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 38/52] fix: four-point structure factor could not be computed

---
 atooms/postprocessing/s4kt.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/atooms/postprocessing/s4kt.py b/atooms/postprocessing/s4kt.py
index 3ede34b..e5f9483 100644
--- a/atooms/postprocessing/s4kt.py
+++ b/atooms/postprocessing/s4kt.py
@@ -37,21 +37,24 @@ class S4ktOverlap(FourierSpaceCorrelation):
         self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1' and norigins != 1)
         self.a_square = a**2
 
-    def _tabulate_W(self, kgrid, selection, t_off, t, skip):
+    def _tabulate_W(self, t_off, t, skip):
         """
         Tabulate W
         """
-        side = self.trajectory[0].cell.side
+        ndims = len(self.k0)
         nt = range(t_off, len(self._pos)-t, skip)
         W = {}
         for i_0, t_0 in enumerate(nt):
             expo = expo_sphere(self.k0, self._koffset, self._pos[t_0])
-            for k, klist in self._kvectors:
+            w = self_overlap(self._pos_unf[t_0], self._pos_unf[t_0+t], self.a_square)
+            for klist in self._kvectors:
                 for kvec in klist:
                     if kvec not in W:
                         W[kvec] = numpy.ndarray(len(nt), dtype=complex)
-                    W[kvec][i_0] = numpy.sum(self_overlap(self._pos_unf[t_0], self._pos_unf[t_0+t], side, self.a_square) *
-                                             expo[..., 0, kvec[0]] * expo[..., 1, kvec[1]] * expo[..., 2, kvec[2]])
+                    tmp = w * expo[..., 0, kvec[0]]
+                    for idim in range(1, ndims):
+                        tmp = tmp * expo[..., idim, kvec[idim]]
+                    W[kvec][i_0] = numpy.sum(tmp)
         return W
 
     def _compute(self):
@@ -62,20 +65,22 @@ class S4ktOverlap(FourierSpaceCorrelation):
         self.value = []
         for off, i in progress(self._discrete_tgrid):
             # As for fkt
-            W = self._tabulate_W(self.kgrid, self.selection, off, i, self.skip)
+            W = self._tabulate_W(off, i, self.skip)
 
             # Compute variance of W
             w_av = [complex(0., 0.) for _ in self.kgrid]
             w2_av = [complex(0., 0.) for _ in self.kgrid]
-            for k, klist in self._kvectors:
+            chi = [0.0 for _ in self.kgrid]
+            for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
                     # Comupte |<W>|^2  and <W W^*>
-                    w_av[kk] = numpy.average(W[kvec])
-                    w2_av[kk] = numpy.average(W[kvec] * W[kvec].conjugate())
+                    w_av[k] = numpy.average(W[kvec])
+                    w2_av[k] = numpy.average(W[kvec] * W[kvec].conjugate())
+                    chi[k] += (w2_av[k] - w_av[k]*w_av[k].conjugate()).real / len(klist)
 
             # Normalization
             npart = self._pos[0].shape[0]
             dt.append(self.trajectory.timestep * (self.trajectory.steps[off+i] - self.trajectory.steps[off]))
-            self.value.append([float(w2_av[k] - (w_av[k]*w_av[k].conjugate())) / npart for k in range(len(self.grid[1]))])
+            self.value.append([chi[k] / npart for k in range(len(self.kgrid))])
         self.grid[1] = self.kgrid
         self.grid[0] = dt
-- 
2.43.0


From a5fc6c83bb9da73723f6d5417580ea034f1079c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 39/52] fix: unfolded positions could not be read along with
 positions or velocities

---
 atooms/postprocessing/correlation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 04f7f5e..1b76be9 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -404,6 +404,10 @@ class Correlation(object):
                         s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                     self._pos_unf.append(s.dump('particle.position_unfolded'))
             else:
+                # Unfolded trajectories cannot be rewound and the one
+                # above is folded back if we need the positions too
+                if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
+                    th = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
                 for s in progress(th):
                     # Apply filter if there is one
                     if len(self._cbk) > 0:
-- 
2.43.0


From a1c9fe9b7e0ad79e76318f4b51d9552c56ca953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 40/52] fix: the filter option was ignored by most commands

---
 atooms/postprocessing/api.py | 60 +++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index de7267e..cbe735b 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -156,10 +156,13 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        pp.MeanSquareDisplacement(th, tgrid=t_grid,
-                                  norigins=global_args['norigins'],
-                                  sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
-                                  fix_cm=fix_cm).do(update=global_args['update'])
+        cf = pp.MeanSquareDisplacement(th, tgrid=t_grid,
+                                       norigins=global_args['norigins'],
+                                       sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
+                                       fix_cm=fix_cm)
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
@@ -178,7 +181,10 @@ def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins'])
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.VelocityAutocorrelation, ids, th,
@@ -207,10 +213,13 @@ def fkt(input_file, tmax=-1.0, tmax_fraction=0.75,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            pp.IntermediateScattering(th, k_grid, t_grid,
-                                      norigins=global_args['norigins'],
-                                      nk=nk, dk=dk, fix_cm=fix_cm).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = pp.IntermediateScattering(th, k_grid, t_grid,
+                                           norigins=global_args['norigins'],
+                                           nk=nk, dk=dk, fix_cm=fix_cm)
+            if global_args['filter'] is not None:
+                cf = pp.Filter(cf, global_args['filter'])
+            cf.do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.IntermediateScattering, ids, th, k_grid, t_grid,
                     norigins=global_args['norigins'],
@@ -239,10 +248,13 @@ def fskt(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=60,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, k_grid, t_grid, nk, dk=dk,
-                    norigins=global_args['norigins'], fix_cm=fix_cm,
-                    lookup_mb=lookup_mb).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = backend(th, k_grid, t_grid, nk, dk=dk,
+                         norigins=global_args['norigins'], fix_cm=fix_cm,
+                         lookup_mb=lookup_mb)
+            if global_args['filter'] is not None:
+                cf = pp.Filter(cf, global_args['filter'])
+            cf.do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, k_grid, t_grid, nk, dk=dk,
                     norigins=global_args['norigins'], fix_cm=fix_cm,
@@ -267,8 +279,11 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = backend(th, t_grid, a=a, norigins=global_args['norigins'])
+            if global_args['filter'] is not None:
+                cf = pp.Filter(cf, global_args['filter'])
+            cf.do(update=global_args['update'])
         if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
@@ -285,7 +300,10 @@ def alpha2(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins'])
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.NonGaussianParameter, ids, th, t_grid,
@@ -303,7 +321,10 @@ def qst(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.SelfOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.SelfOverlap(th, t_grid, norigins=global_args['norigins'])
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.SelfOverlap, ids, th, t_grid,
@@ -321,7 +342,10 @@ def qt(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins'])
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.CollectiveOverlap, ids, th, t_grid,
-- 
2.43.0


From 7c465b7ace37edafb455d9e237f6e1c9b88c1cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 41/52] fix: stress autocorrelation iterated over an attribute
 trajectories do not have

---
 atooms/postprocessing/sacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index 0d7c7a8..87ebb34 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -30,7 +30,7 @@ class StressAutocorrelation(Correlation):
         p = self.trajectory.read(0).particle
         mass = numpy.array([pi.mass for pi in p])
         self._stress = []
-        for i in self.trajectory.samples:
+        for i in range(len(self.trajectory)):
             s = self.trajectory.read(i).interaction.stress
             smk = numpy.zeros(ndims)
             m = 0
-- 
2.43.0


From eb95c5ebcf2778b5be6b646528d6ac37ad4ad837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 42/52] fix: densities of F(k,t) in dimensions other than 2 and
 3 (imaginary part, table modified in place)

---
 atooms/postprocessing/fkt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 84cd17f..5924edd 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -306,10 +306,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                     expo_0[..., 1, kvec[1]])
                     else:
                         # Arbitrary dimension (a bit slower)
-                        tmp = expo_0[..., 0, kvec[0]]
+                        tmp = expo_0[..., 0, kvec[0]].copy()
                         for idim in range(1, len(kvec)):
                             tmp *= expo_0[..., idim, kvec[idim]]
-                        rho_0[it][kvec] += numpy.sum(tmp).real
+                        rho_0[it][kvec] += numpy.sum(tmp)
 
                     # Same optimization as above: only calculate rho_1 if needed
                     if self._pos_1 is not self._pos_0:
@@ -322,10 +322,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                         expo_1[..., 1, kvec[1]])
                         else:
                             # Arbitrary dimension (a bit slower)
-                            tmp = expo_1[..., 0, kvec[0]]
+                            tmp = expo_1[..., 0, kvec[0]].copy()
                             for idim in range(1, len(kvec)):
                                 tmp *= expo_1[..., idim, kvec[idim]]
-                            rho_1[it][kvec] += numpy.sum(tmp).real
+                            rho_1[it][kvec] += numpy.sum(tmp)
 
             # Optimization
             if self._pos_1 is self._pos_0:
-- 
2.43.0


From f8453ec92d25e38311509084c4f98543d4adfc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 43/52] fix: cross structure factor in dimensions other than 2
 and 3

---
 atooms/postprocessing/sk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 4762611..12f6693 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -131,11 +131,11 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
                                               expo_1[..., 1, kvec[1]])
                         else:
                             tmp = weight_0 * expo_0[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            for idim in range(1, ndims):
                                 tmp *= expo_0[..., idim, kvec[idim]]
                             rho_0 = numpy.sum(tmp)
-                            tmp = weight_0 * expo_1[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            tmp = weight_1 * expo_1[..., 0, kvec[0]]
+                            for idim in range(1, ndims):
                                 tmp *= expo_1[..., idim, kvec[idim]]
                             rho_1 = numpy.sum(tmp)
 
-- 
2.43.0


From 81112f3c978e2a287050439e95c2ec98c5b5eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 44/52] fix: radial distribution function with linked cells
 missed pairs in the last bin beyond rmax

---
 atooms/postprocessing/gr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 742183e..a878d40 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -238,9 +238,11 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n_0 = len(self._pos_0[0])
             n_1 = len(self._pos_1[0])
             rho = n_1 / system.cell.volume
-            nmax = self.rmax**ndims * rho
-            if int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
-                linkedcells = LinkedCells(rcut=self.rmax)
+            # The last bin is centered within rmax but may extend beyond it
+            rcut = self.rmax + dr / 2
+            nmax = rcut**ndims * rho
+            if int(min(system.cell.side / rcut)) > 3 and nmax * n_0 < 1e6:
+                linkedcells = LinkedCells(rcut=rcut)
             else:
                 linkedcells = None
 
-- 
2.43.0


From e51af67efa4cbca67f95be2ccc1ce8409c1f5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 45/52] fix: overflow of the work array of the radial
 distribution function kernel with neighbors of another species (Fortran
 order)

---
 atooms/postprocessing/realspace.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 610255e..ed927c2 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -351,7 +351,7 @@ contains
     integer(8), intent(in)    :: neighbors(:,:), number_of_neighbors(:)
     integer(8), intent(inout) :: hist(:)
     real(8), intent(inout) :: bins(:)
-    real(8)                   :: distances(size(positions,2))  ! stack
+    real(8)                   :: distances(size(other,2))  ! stack
     real(8), intent(in)       :: box(:)
     real(8)    :: dist(size(box)), dist_sq, pos(size(box)), rmax, hbox(size(box))
     integer(8) :: i, j, ii, jj, bin, k, delta
-- 
2.43.0


From 6eca249b3a282269b88b10cdf818eb3588bdbb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 46/52] fix: neighbors among other particles were also recorded
 for the particles with the indices of those neighbors

---
 atooms/postprocessing/realspace.f90 | 2 --
 1 file changed, 2 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index ed927c2..9e6cbb0 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -199,9 +199,7 @@ contains
           rijsq = dot_product(rij,rij)
           if (rijsq < rcutsq(isp,jsp)) then
              nn(i) = nn(i) + 1
-             nn(j) = nn(j) + 1
              neigh(i,nn(i)) = j+delta
-             neigh(j,nn(j)) = i+delta
           end if
        end do
     end do
-- 
2.43.0


From e1e442c05e416df2969a89b126e48644fd247501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 47/52] fix: linked cells used again with another set of
 particles or other periodic directions kept the previous map of cells

---
 atooms/postprocessing/linkedcells.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 87969d1..d94a02c 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -135,8 +135,11 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted or numpy.any(self.box != box):
-            self.adjust(box, newton=other is None and newton, periodic=periodic)
+        newton = bool(other is None and newton)
+        settings = (newton, None if periodic is None else tuple(periodic))
+        if not self._is_adjusted or self._settings != settings or numpy.any(self.box != box):
+            self.adjust(box, newton=newton, periodic=periodic)
+            self._settings = settings
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
         # this is the same set of particles we use when retrieving
-- 
2.43.0


From 3a8ce75aa88aaa3c7d2766b1cf36344215ecfdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 48/52] fix: volume of the shells of g(r) in an odd number of
 dimensions

---
 atooms/postprocessing/gr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index a878d40..ace3a0a 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -165,7 +165,7 @@ class RadialDistributionFunctionLegacy(Correlation):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
         rho = N_1 / volume
         if self._pos_0 is self._pos_1:
@@ -346,7 +346,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
 
         rho = N_1 / volume
-- 
2.43.0


From 261c904c79761fdf765d60fc1667e79e00072f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 49/52] fix: non-Gaussian parameter in two dimensions

---
 atooms/postprocessing/alpha2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index a772dc5..7ed0523 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -34,7 +34,9 @@ class NonGaussianParameter(Correlation):
             dx2 = (x - y)**2
             dr2 = numpy.sum(dx2) / float(x.shape[0])
             dr4 = numpy.sum(numpy.sum(dx2, axis=1)**2) / float(x.shape[0])
-            return 3 * dr4 / (5 * dr2**2) - 1
+            # Displacements that are Gaussian in ndims dimensions give zero
+            ndims = x.shape[1]
+            return ndims * dr4 / ((ndims + 2) * dr2**2) - 1
 
         self.grid, self.value = gcf_offset(alpha_2, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
-- 
2.43.0


From e007f9655ac6e263ab84921ec074ddd9dfaba305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:34 +0000
Subject: [PATCH 50/52] fix: subtract the mean of weights out of place, integer
 fields cannot be modified to floats

With fluctuations=True, a weight read from an integer particle field raised a casting error.
---
 atooms/postprocessing/correlation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 1b76be9..e2a869f 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -105,8 +105,9 @@ def _subtract_mean(weight):
     for current_field in weight:
         mean += current_field.mean()
     mean /= len(weight)
-    for current_field in weight:
-        current_field -= mean
+    # Not in place, the field may be an integer
+    for i, current_field in enumerate(weight):
+        weight[i] = current_field - mean
     return weight
 
 
-- 
2.43.0


From 8ea8e76e744e32e4e51699a0dd8d657a5a04257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:35 +0000
Subject: [PATCH 51/52] fix: read files with a single point

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index e2a869f..1645522 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -590,7 +590,7 @@ class Correlation(object):
     def read(self):
         """Read correlation function from existing file"""
         with open(self._output_file, 'r') as inp:
-            x = numpy.loadtxt(inp, unpack=True)
+            x = numpy.loadtxt(inp, unpack=True, ndmin=2)
             if len(x) == 3:
                 # The second grid is repeated for every entry of the first one
                 n = len(x[1]) // numpy.count_nonzero(x[1] == x[1][0])
-- 
2.43.0


From afae33f0fc6913caad92fb289ec0bc858eb15e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:35 +0000
Subject: [PATCH 52/52] fix: at least one block between origins of block
 trajectories

---
 atooms/postprocessing/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 93a17f5..b3071a5 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -157,7 +157,8 @@ def adjust_skip(trajectory, n_origins=None):
             skip = 1 * trajectory.block_size  # all origins
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
-            skip = int(nbl / float(n_origins)) * trajectory.block_size
+            # At least one block, when there are fewer than the origins
+            skip = max(1, int(nbl / float(n_origins))) * trajectory.block_size
         elif float(n_origins) == 1:
             skip = len(trajectory.steps)
         else:
-- 
2.43.0

