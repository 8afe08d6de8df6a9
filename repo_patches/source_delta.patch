From b8d18632869b690c5f93d66c4581cd9ffe69e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 01/28] fix: account for sub_sample_traj in the ASEParser time
 intervals

The Pymatgen and MDAnalysis parsers multiply step_skip by sub_sample_traj;
ASEParser did not, so a sub-sampled ASE trajectory reported every time
interval (and so every diffusion coefficient) wrong by that factor.
---
 kinisi/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3543f7a..27c428a 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -288,8 +288,8 @@ class ASEParser(Parser):
 
         self.coords_check = coords[0]
 
-        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step, step_skip,
-                         min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
+        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step,
+                         step_skip * sub_sample_traj, min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
         self._volume = structure.get_volume()
 
     @staticmethod
-- 
2.43.0


From b4e64bb4bfb1231782fdbdf7f490825b74e48a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 02/28] fix: framework_indices together with a flat
 specie_indices list

The combination always raised AttributeError (append on a numpy array), and
would have added every non-mobile atom to the requested framework. Use the
requested framework as given, in the zero-based numbering that specie_indices
has in the same call.
---
 kinisi/parser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 27c428a..4136b24 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -753,12 +753,11 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         diffusion and indices of framework atoms. 
     """
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = framework_indices
     else:
         drift_indices = []
-
-    for i, site in enumerate(structure):
-        if i not in indices:
-            drift_indices.append(i)
+        for i, site in enumerate(structure):
+            if i not in indices:
+                drift_indices.append(i)
 
     return indices, drift_indices
-- 
2.43.0


From 43afcf5c752e9ab3d31574c55d7ecc536ad9e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 03/28] fix: allow an empty framework_indices list with
 molecules

An empty list became a float array, which cannot be used as an index.
---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 4136b24..9329d4f 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -699,7 +699,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     n_molecules = indices.shape[0]
 
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
             if i not in indices:
-- 
2.43.0


From aa15db8e0e52b6711c50db8a579ec90540d0a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 04/28] fix: integer time_step in the PymatgenParser

With an integer time_step and step_skip, delta_t is an integer array and the
in-place conversion from femtoseconds to picoseconds raised UFuncTypeError.
---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 9329d4f..b7a10a4 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -436,7 +436,7 @@ class PymatgenParser(Parser):
                          progress=progress)
         self._volume = structure.volume
         warnings.warn("UserWarning: Be aware that the expected input unit for 'time_step' is femtoseconds, not picoseconds.")
-        self.delta_t *= 1e-3
+        self.delta_t = self.delta_t * 1e-3
 
     @staticmethod
     def get_structure_coords_latt(
-- 
2.43.0


From 6d25819a743d095d004562a582a7ee36fe8f7465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 05/28] fix: accept pymatgen Element and Species objects as
 specie

These are the annotated types, but only strings ever matched.
---
 kinisi/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index b7a10a4..06500ba 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -493,6 +493,7 @@ class PymatgenParser(Parser):
         drift_indices = []
         if not isinstance(specie, List):
             specie = [specie]
+        specie = [str(s) for s in specie]
         for i, site in enumerate(structure):
             if site.specie.__str__() in specie:
                 indices.append(i)
-- 
2.43.0


From 8d3c26c26132daa7a83fedabaee262a88deb35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 06/28] fix: single-origin displacements for non-contiguous
 time intervals

The displacement was taken at the position of the interval in the list, not at
the interval, so any spacing but 1, 2, 3, ... gave the wrong displacements.
---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 06500ba..f85de19 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -200,7 +200,7 @@ class Parser:
                               "https://kinisi.readthedocs.io/en/latest/memory_limit.html).")
         for i, time_interval in enumerate(iterator):
             if self.sampling == 'single-origin':
-                disp = drift_corrected[self.indices, i:i + 1]
+                disp = drift_corrected[self.indices, time_interval - 1:time_interval]
                 if np.multiply(*disp[:, ::time_interval].shape[:2]) <= 1:
                     continue
                 disp_3d.append(disp)
-- 
2.43.0


From 2ab5fabe901ff12fa7543cd5cdc559c2dc9907c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 07/28] fix: do not lose a frame to rounding when converting dt
 to frames

The ratio of a time interval and the frame spacing was truncated, so 0.3 / 0.1
became 2 frames, and the longest interval of the default max_dt was lost for
about one in twenty frame spacings.
---
 kinisi/parser.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index f85de19..8dcbf39 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -81,7 +81,7 @@ class Parser:
             self.max_dt = drift_corrected.shape[1] * (self.step_skip * self.time_step)
         if self.min_dt is None:
             self.min_dt = self.step_skip * self.time_step
-        min_dt_int = int(self.min_dt / (self.step_skip * self.time_step))
+        min_dt_int = self._to_frames(self.min_dt)
         if min_dt_int >= drift_corrected.shape[1]:
             raise ValueError('The passed min_dt is greater than or equal to the maximum simulation length.')
         if n_steps > (drift_corrected.shape[1] - min_dt_int) + 1:
@@ -147,6 +147,16 @@ class Parser:
             drift_corrected = disp
         return drift_corrected
 
+    def _to_frames(self, dt: float) -> int:
+        """
+        Convert a time interval to a whole number of frames, tolerating floating-point rounding in the ratio.
+
+        :param dt: Time interval, in the simulation units.
+
+        :return: Number of frames.
+        """
+        return int(np.round(dt / (self.step_skip * self.time_step), 6))
+
     def get_time_intervals(self, n_steps: int, spacing: str) -> np.ndarray:
         """
         Calculate the smoothed time intervals to be used.
@@ -156,8 +166,8 @@ class Parser:
 
         :return: Smoothed time intervals.
         """
-        min_dt = int(self.min_dt / (self.step_skip * self.time_step))
-        max_dt = int(self.max_dt / (self.step_skip * self.time_step))
+        min_dt = self._to_frames(self.min_dt)
+        max_dt = self._to_frames(self.max_dt)
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-- 
2.43.0


From 152a788da16ea0cceb236043afd6d79493835dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 08/28] fix: no repeated time intervals with linear spacing

When n_steps exceeds the number of frames between min_dt and max_dt the same
interval was evaluated more than once, which makes the covariance matrix
singular.
---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 8dcbf39..2ba7a5b 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -171,7 +171,7 @@ class Parser:
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-            return np.linspace(min_dt, max_dt, n_steps, dtype=int)
+            return np.unique(np.linspace(min_dt, max_dt, n_steps, dtype=int))
         elif spacing == 'logarithmic':
             return np.unique(np.geomspace(min_dt, max_dt, n_steps, dtype=int))
         else:
-- 
2.43.0


From 09e8df5c2de1c877e346127feda020e646c49080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 09/28] fix: number of independent observations with max_dt or
 single-origin

The number of non-overlapping windows was derived from the longest evaluated
interval, not from the length of the trajectory, so the uncertainty at an
interval depended on max_dt. With single-origin sampling there is only one
observation per atom, whatever the interval.
---
 kinisi/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 2ba7a5b..29bda89 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -211,6 +211,7 @@ class Parser:
         for i, time_interval in enumerate(iterator):
             if self.sampling == 'single-origin':
                 disp = drift_corrected[self.indices, time_interval - 1:time_interval]
+                n_independent = disp.shape[0]
                 if np.multiply(*disp[:, ::time_interval].shape[:2]) <= 1:
                     continue
                 disp_3d.append(disp)
@@ -221,6 +222,7 @@ class Parser:
                                 drift_corrected[self.indices, :-time_interval])
                 ],
                                       axis=1)
+                n_independent = disp.shape[0] * drift_corrected.shape[1] / time_interval
                 if np.multiply(*disp[:, ::time_interval].shape[:2]) <= 1:
                     continue
                 disp_3d.append(disp)
@@ -228,7 +230,7 @@ class Parser:
                 raise ValueError(f"The sampling option of {self.sampling} is unrecognized, "
                                  "please use 'multi-origin' or 'single-origin'.")
             # n_samples = np.append(n_samples, np.multiply(*disp[:, ::time_interval].shape[:2]))
-            n_samples = np.append(n_samples, disp.shape[0] * time_intervals[-1] / time_interval)
+            n_samples = np.append(n_samples, n_independent)
         return delta_t, disp_3d, n_samples
 
 
-- 
2.43.0


From 9f2db3d2be1f5bf8f10837e3ea094d927532cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 10/28] fix: sub-sample the number of observations along with
 the displacements

With sub_sample_dt, the variances and covariances used the number of
independent observations of other time intervals.
---
 kinisi/diffusion.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index e123f40..1b14b89 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -68,7 +68,7 @@ class Bootstrap:
         self._n_bootstrap = np.array([])
         self._s_bootstrap = np.array([])
         self._v_bootstrap = np.array([])
-        self._n_o = n_o
+        self._n_o = n_o[::sub_sample_dt]
         self._ngp = np.array([])
         self._sub_sample_dt = sub_sample_dt
         self._dimension = dimension
@@ -576,7 +576,7 @@ class MSDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(d_squared, n_o[i], n_resamples, max_resamples, alpha, random_state)
+                distro = self.sample_until_normal(d_squared, self._n_o[i], n_resamples, max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
                 self._v_bootstrap = np.append(self._v_bootstrap, np.var(distro.samples, ddof=1))
@@ -595,7 +595,7 @@ class MSDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, d_squared.mean())
-                self._v = np.append(self._v, np.var(d_squared, ddof=1) / n_o[i])
+                self._v = np.append(self._v, np.var(d_squared, ddof=1) / self._n_o[i])
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -661,7 +661,7 @@ class MSTDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(coll_motion, n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
+                distro = self.sample_until_normal(coll_motion, self._n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
                                                   alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -681,7 +681,7 @@ class MSTDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, coll_motion.mean())
-                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -753,7 +753,7 @@ class MSCDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(sq_chg_motion, n_o[i] / d_squared.shape[0], n_resamples,
+                distro = self.sample_until_normal(sq_chg_motion, self._n_o[i] / d_squared.shape[0], n_resamples,
                                                   max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -773,7 +773,7 @@ class MSCDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, sq_chg_motion.mean())
-                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
-- 
2.43.0


From 233b0a309c27c4b34ddc42473d2b606f2e8f191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 11/28] fix: do not sub-sample the displacements again in
 Bootstrap.from_dict

---
 kinisi/diffusion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 1b14b89..9748c8e 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -144,8 +144,9 @@ class Bootstrap:
         boot = cls(my_dict['delta_t'],
                    my_dict['displacements'],
                    my_dict['n_o'],
-                   sub_sample_dt=my_dict['sub_sample_dt'],
                    dimension=my_dict['dimension'])
+        # The stored data has already been sub-sampled
+        boot._sub_sample_dt = my_dict['sub_sample_dt']
         boot._max_obs = my_dict['max_obs']
         boot._euclidian_displacements = [Distribution.from_dict(d) for d in my_dict['euclidian_displacements']]
         boot._dt = my_dict['dt']
-- 
2.43.0


From 2b2b756466b90cae163d8fc0bcaa500c3fcee468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 12/28] fix: allow numpy scalars to be saved, so that a loaded
 object can be saved again

---
 kinisi/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index aad495e..4b9541e 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -368,11 +368,11 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
     :param my_dict: Dict to make datasets from.
     """
     for key, value in my_dict.items():
-        if isinstance(value, (np.ndarray, int, float, str, bytes)):
+        if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
             for i, d in enumerate(value):
-                if isinstance(d, (np.ndarray, int, float, str, bytes)):
+                if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
                 elif isinstance(d, dict):
                     _dict_to_group(h5file, path + key + f'/list{i}' + '/', d)
-- 
2.43.0


From f116dcdb42d9066e865986bd841fa71536e8c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 13/28] fix: only replace the file extension, not dots
 elsewhere in the path, in save and load

---
 kinisi/analyzer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 4b9541e..ac037e8 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -6,6 +6,7 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 # Distributed under the terms of the MIT License
 # author: Andrew R. McCluskey (arm61)
 
+from os.path import exists, splitext
 from typing import Union, List
 import numpy as np
 from kinisi.parser import MDAnalysisParser, PymatgenParser, ASEParser
@@ -36,11 +37,10 @@ class Analyzer:
 
         :param filename: Name for the file, no file extension is required and if one if given it is replaced with .hdf.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         my_dict = self.to_dict()
         try:
             import h5py
-            from os.path import exists
         except ModuleNotFoundError:  # pragma: no cover
             raise ModuleNotFoundError("To save and load objects, the h5py module is required")  # pragma: no cover
         if exists(filename):
@@ -57,7 +57,7 @@ class Analyzer:
 
         :return: An :py:class:`Analyzer` object from the file.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         try:
             import h5py
         except ModuleNotFoundError:  # pragma: no cover
-- 
2.43.0


From d5dcd718beffd44819d11f472cf47210f3aac3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 14/28] fix: do not modify the bounds passed to SuperArrhenius

---
 kinisi/arrhenius.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/arrhenius.py b/kinisi/arrhenius.py
index 67a9af9..bbed6da 100644
--- a/kinisi/arrhenius.py
+++ b/kinisi/arrhenius.py
@@ -116,7 +116,7 @@ class SuperArrhenius(Relationship):
                                                                                                  (0, None)],
                  diffusion_error: np.ndarray = None):
         if bounds[2][1] is None:
-            bounds[2] = (0, temperature[0])
+            bounds = [*bounds[:2], (bounds[2][0], temperature[0])]
         super().__init__(super_arrhenius, temperature, diffusion, bounds, ordinate_error=diffusion_error)
 
     @property
-- 
2.43.0


From eed5e02aa264fecc0e5638b5be26c18134d6c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:42 +0000
Subject: [PATCH 15/28] fix: distribution, flatchain and posterior_predictive
 without an intercept

---
 kinisi/analyzer.py                | 5 ++++-
 kinisi/conductivity_analyzer.py   | 2 ++
 kinisi/diffusion.py               | 4 +++-
 kinisi/diffusion_analyzer.py      | 2 ++
 kinisi/jump_diffusion_analyzer.py | 2 ++
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index ac037e8..f7c4d19 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -309,7 +309,10 @@ class Analyzer:
         :return: A distribution of samples for the linear relationship that can be used for easy
         plotting of credible intervals.
         """
-        return self._diff.gradient.samples * self.dt[:, np.newaxis] + self._diff.intercept.samples
+        line = self._diff.gradient.samples * self.dt[:, np.newaxis]
+        if self._diff.intercept is None:
+            return line
+        return line + self._diff.intercept.samples
 
     @property
     def dt(self) -> np.ndarray:
diff --git a/kinisi/conductivity_analyzer.py b/kinisi/conductivity_analyzer.py
index f4e405b..006a5e0 100644
--- a/kinisi/conductivity_analyzer.py
+++ b/kinisi/conductivity_analyzer.py
@@ -263,4 +263,6 @@ class ConductivityAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return self.sigma.samples[:, np.newaxis]
         return np.array([self.sigma.samples, self.intercept.samples]).T
diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 9748c8e..7d468af 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -516,7 +516,9 @@ class Bootstrap:
         else:
             iterator = samples_to_draw
         for i, n in iterator:
-            mu = self.gradient.samples[n] * self._dt[diff_regime:] + self.intercept.samples[n]
+            mu = self.gradient.samples[n] * self._dt[diff_regime:]
+            if self.intercept is not None:
+                mu = mu + self.intercept.samples[n]
             mv = multivariate_normal(mean=mu, cov=self._covariance_matrix, allow_singular=True)
             ppd[i] = mv.rvs(n_predictive_samples)
         return ppd.reshape(-1, self._dt[diff_regime:].size)
diff --git a/kinisi/diffusion_analyzer.py b/kinisi/diffusion_analyzer.py
index 56dee3c..e39258e 100644
--- a/kinisi/diffusion_analyzer.py
+++ b/kinisi/diffusion_analyzer.py
@@ -242,4 +242,6 @@ class DiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return self.D.samples[:, np.newaxis]
         return np.array([self.D.samples, self.intercept.samples]).T
diff --git a/kinisi/jump_diffusion_analyzer.py b/kinisi/jump_diffusion_analyzer.py
index 4503496..2d0a600 100644
--- a/kinisi/jump_diffusion_analyzer.py
+++ b/kinisi/jump_diffusion_analyzer.py
@@ -245,4 +245,6 @@ class JumpDiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return self.D_J.samples[:, np.newaxis]
         return np.array([self.D_J.samples, self.intercept.samples]).T
-- 
2.43.0


From 64a0f03f6a7f4bcd91d335cf97a155e351248238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:42 +0000
Subject: [PATCH 16/28] fix: mean-squared charge displacement along the
 requested dimension

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 7d468af..05853c2 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -751,7 +751,7 @@ class MSCDBootstrap(Bootstrap):
             disp_slice = self._displacements[i][:, :, self._slice].reshape(self._displacements[i].shape[0],
                                                                            self._displacements[i].shape[1], self.dims)
             d_squared = np.sum(disp_slice**2, axis=-1)
-            sq_chg_motion = np.sum(np.sum((ionic_charge * self._displacements[i].T).T, axis=0)**2, axis=-1)
+            sq_chg_motion = np.sum(np.sum((ionic_charge * disp_slice.T).T, axis=0)**2, axis=-1)
             if sq_chg_motion.size <= 1:
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
-- 
2.43.0


From d762f4f7126888c878edc88a0ae183f2311de959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:42 +0000
Subject: [PATCH 17/28] fix: Bootstrap.n_i

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 05853c2..a8e2572 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -225,7 +225,7 @@ class Bootstrap:
         """
         :return: The number of independent trajectories as a function of :py:attr:`dt`.
         """
-        return self._n_i
+        return self._n_o
 
     @property
     def intercept(self) -> Union[Distribution, None]:
-- 
2.43.0


From 854fadc83611d8fc2651ac7e6fb7461a8fa29303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:42 +0000
Subject: [PATCH 18/28] fix: use the largest eigenvalue in the minimum
 eigenvalue method

---
 kinisi/diffusion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index a8e2572..832c594 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -883,9 +883,9 @@ def minimum_eigenvalue_method(matrix: np.ndarray, cond_max=1e16) -> np.ndarray:
 
     :return: Reconditioned matrix.
     """
-    eigenthings = np.linalg.eig(matrix)
+    eigenthings = np.linalg.eigh(matrix)
     eigenvalues = eigenthings.eigenvalues
     new_eigenvalues = np.copy(eigenvalues)
-    T = eigenvalues[0] / cond_max
+    T = np.max(eigenvalues) / cond_max
     new_eigenvalues[np.where(new_eigenvalues < T)] = T
     return np.real(eigenthings.eigenvectors @ np.diag(new_eigenvalues) @ eigenthings.eigenvectors.T)
-- 
2.43.0


From fccf5488ee4c3bb36605ea2529cecc0ef7afb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:39 +0000
Subject: [PATCH 19/28] fix: variance model for the covariance matrix
 independent of the scale of the data

---
 kinisi/diffusion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 832c594..f6af31a 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -12,7 +12,7 @@ from typing import List, Union, Any
 import numpy as np
 from scipy.stats import normaltest, linregress, multivariate_normal
 from scipy.linalg import pinvh
-from scipy.optimize import minimize, curve_fit
+from scipy.optimize import minimize
 import scipy.constants as const
 import tqdm
 from uravu.distribution import Distribution
@@ -417,7 +417,9 @@ class Bootstrap:
             return a / self._n_o[diff_regime:] * dt**2
 
         if self._model:
-            self._popt, _ = curve_fit(_model_variance, self.dt[diff_regime:], self._v[diff_regime:], bounds=(0, np.inf))
+            # The model is linear in the coefficient, so the least-squares estimate is known exactly
+            basis = _model_variance(self.dt[diff_regime:], 1)
+            self._popt = np.array([np.dot(basis, self._v[diff_regime:]) / np.dot(basis, basis)])
             self._model_v = _model_variance(self.dt[diff_regime:], *self._popt)
         else:
             self._model_v = self._v[diff_regime:]
-- 
2.43.0


From 678229312395a09194dc764f9ee2aefddf4b6f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:08 +0000
Subject: [PATCH 20/28] fix: framework_indices given as a tuple

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 29bda89..3044ee8 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -141,7 +141,7 @@ class Parser:
         """
         # drift corrected position
         if len(drift_indices) > 0:
-            framework_disp = disp[drift_indices]
+            framework_disp = disp[np.array(drift_indices, dtype=int)]
             drift_corrected = disp - np.average(framework_disp, axis=0)[None, :, :]
         else:
             drift_corrected = disp
-- 
2.43.0


From 8fb8f44a5b69ca54fc29c70bb3dc9b666e2dcfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:27 +0000
Subject: [PATCH 21/28] fix: logarithmic time intervals lost to rounding

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3044ee8..f7e0c92 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -173,7 +173,7 @@ class Parser:
         if spacing == 'linear':
             return np.unique(np.linspace(min_dt, max_dt, n_steps, dtype=int))
         elif spacing == 'logarithmic':
-            return np.unique(np.geomspace(min_dt, max_dt, n_steps, dtype=int))
+            return np.unique(np.round(np.geomspace(min_dt, max_dt, n_steps), 6).astype(int))
         else:
             raise ValueError("Only linear or logarithmic spacing is allowed.")
 
-- 
2.43.0


From 33b662027335148141cd168aca53fa5d007aacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:15 +0000
Subject: [PATCH 22/28] fix: do not start the sampling from a negative gradient

The optimisation can step outside of the allowed region (where the likelihood is
zero) and stop there, all of the walkers then stay at a negative gradient and a
negative diffusion coefficient is reported.
---
 kinisi/diffusion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index f6af31a..9b445eb 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -379,9 +379,13 @@ class Bootstrap:
             return -log_likelihood(*args)
 
         if fit_intercept:
-            max_likelihood = minimize(nll, np.array([slope, intercept])).x
+            initial = np.array([slope, intercept])
         else:
-            max_likelihood = minimize(nll, np.array([slope])).x
+            initial = np.array([slope])
+        max_likelihood = minimize(nll, initial).x
+        if max_likelihood[0] < 0:
+            # The walkers cannot leave the region of zero likelihood if they all start there
+            max_likelihood = initial
         pos = max_likelihood + max_likelihood * 1e-3 * np.random.randn(n_walkers, max_likelihood.size)
         sampler = EnsembleSampler(*pos.shape, log_likelihood)
         # Waiting on https://github.com/dfm/emcee/pull/376
-- 
2.43.0


From 5e1cae5a265e93a2bf323fc5bdb7448616ad8e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:02 +0000
Subject: [PATCH 23/28] fix: wrap coordinates into the cell before unwrapping,
 as the TOR scheme requires in fluctuating cells

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index f7e0c92..3fb9e87 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -117,7 +117,7 @@ class Parser:
                 'Converting triclinic cell to orthorhombic this may have unexpected results. '
                 'Triclinic a, b, c are not equilivalent to orthorhombic x, y, z.', UserWarning)
 
-        coords = np.concatenate(coords, axis=1)  #change array shape and removes extra dim
+        coords = np.concatenate(coords, axis=1) % 1  #change array shape, removes extra dim, wrap into the cell (TOR)
         latt_inv = np.linalg.inv(latt)  #invert lattice vectors
         wrapped = np.einsum('ijk,jkl->ijl', coords, latt)  #apply lattice vectors to get cartisian coords
         wrapped_diff = np.diff(wrapped, axis=1)  #calculate difference in cart
-- 
2.43.0


From 606583964462d5ca8962eccb7c91611e4416ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:18 +0000
Subject: [PATCH 24/28] fix: volume of identical replicas matches their stacked
 particles, conductivity was multiplied by their number

---
 kinisi/analyzer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index f7c4d19..e3e65f9 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -113,7 +113,7 @@ class Analyzer:
             n_o = np.zeros(u[0]._n_o.size)
             for i in u:
                 n_o += i._n_o
-            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, u[0].volume, **kwargs)
+            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, sum(i.volume for i in u), **kwargs)
         elif dtype == 'consecutive':
             structures = _flatten_list([x for x in trajectory])
             u = PymatgenParser(structures, **parser_params)
@@ -150,7 +150,7 @@ class Analyzer:
             n_o = np.zeros(u[0]._n_o.size)
             for i in u:
                 n_o += i._n_o
-            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, u[0].volume, **kwargs)
+            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, sum(i.volume for i in u), **kwargs)
         elif dtype == 'consecutive':
             structures = _flatten_list([x for x in trajectory])
             u = ASEParser(structures, **parser_params)
@@ -188,7 +188,7 @@ class Analyzer:
             n_o = np.zeros(u[0]._n_o.size)
             for i in u:
                 n_o += i._n_o
-            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, u[0].volume, **kwargs)
+            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, sum(i.volume for i in u), **kwargs)
         elif dtype == 'consecutive':
             structures = _flatten_list([x.structures for x in trajectory])
             u = PymatgenParser(structures, **parser_params)
@@ -224,7 +224,7 @@ class Analyzer:
             n_o = np.zeros(u[0]._n_o.size)
             for i in u:
                 n_o += i._n_o
-            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, u[0].volume, **kwargs)
+            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, sum(i.volume for i in u), **kwargs)
         elif dtype == 'consecutive':
             trajectory_list = (Xdatcar(f) for f in trajectory)
             structures = _flatten_list([x.structures for x in trajectory_list])
@@ -266,7 +266,7 @@ class Analyzer:
             n_o = np.zeros(u[0]._n_o.size)
             for i in u:
                 n_o += i._n_o
-            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, u[0].volume, **kwargs)
+            return cls(u[0].delta_t, cls._stack_trajectories(u), n_o, sum(i.volume for i in u), **kwargs)
         else:
             raise ValueError('The dtype specified was not recognised, please consult the kinisi documentation.')
 
-- 
2.43.0


From 0a563afbc5262841eb11f429499bad46d66b5c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:16 +0000
Subject: [PATCH 25/28] fix: non-Gaussian parameter for displacements along
 fewer than three dimensions

---
 kinisi/diffusion.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 9b445eb..b4750e8 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -290,17 +290,18 @@ class Bootstrap:
         return Distribution(values)
 
     @staticmethod
-    def ngp_calculation(d_squared: np.ndarray) -> float:
+    def ngp_calculation(d_squared: np.ndarray, dims: int = 3) -> float:
         """
         Determine the non-Gaussian parameter, from S. Song et al, "Transport dynamics of complex fluids"
         (2019): 10.1073/pnas.1900239116
 
         :param d_squared: Squared displacement values.
+        :param dims: Number of dimensions of the displacements. Optional, default is :py:attr:`3`.
 
         :return: Value of non-Gaussian parameter.
         """
-        top = np.mean(d_squared * d_squared) * 3
-        bottom = np.square(np.mean(d_squared)) * 5
+        top = np.mean(d_squared * d_squared) * dims
+        bottom = np.square(np.mean(d_squared)) * (dims + 2)
         return top / bottom - 1
 
     def bootstrap_GLS(self,
@@ -606,7 +607,7 @@ class MSDBootstrap(Bootstrap):
                 self._n = np.append(self._n, d_squared.mean())
                 self._v = np.append(self._v, np.var(d_squared, ddof=1) / self._n_o[i])
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
-            self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared))
+            self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared, self.dims))
             self._dt = np.append(self._dt, self._delta_t[i])
         self._n_o = self._n_o[:self._n.size]
 
@@ -692,7 +693,7 @@ class MSTDBootstrap(Bootstrap):
                 self._n = np.append(self._n, coll_motion.mean())
                 self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
-            self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
+            self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten(), self.dims))
             self._dt = np.append(self._dt, self._delta_t[i])
         self._n_o = self._n_o[:self._n.size]
 
@@ -784,7 +785,7 @@ class MSCDBootstrap(Bootstrap):
                 self._n = np.append(self._n, sq_chg_motion.mean())
                 self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
-            self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
+            self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten(), self.dims))
             self._dt = np.append(self._dt, self._delta_t[i])
         self._n_o = self._n_o[:self._n.size]
 
-- 
2.43.0


From 90ace5d09c5d09510a651a2d2d11fcad775d4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:42 +0000
Subject: [PATCH 26/28] fix: save and load analyses without any observed
 interval (empty lists)

---
 kinisi/analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index e3e65f9..0a6e06f 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -374,6 +374,7 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
         if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
+            h5file.require_group(path + key)
             for i, d in enumerate(value):
                 if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
@@ -409,7 +410,7 @@ def _group_to_dict(h5file: 'h5py._hl.files.File', path: str) -> dict:
                 my_dict[key] = value[()]
         elif isinstance(value, h5py._hl.group.Group):
             key_list = list(h5file[path + key + '/'].keys())
-            if key_list[0][:4] == 'list':
+            if len(key_list) == 0 or key_list[0][:4] == 'list':
                 my_dict[key] = []
                 for i in sorted([int(i[4:]) for i in key_list]):
                     value = h5file[path + key + f'/list{i}']
-- 
2.43.0


From c561dcbae21e6a250dfb7cd5d1520ae6194e8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 27/28] fix: framework_indices given as a numpy array were
 ignored

---
 kinisi/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3fb9e87..a117e4a 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -362,7 +362,7 @@ class ASEParser(Parser):
         if len(indices) == 0:
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
-        if isinstance(framework_indices, (list, tuple)):
+        if isinstance(framework_indices, (list, tuple, np.ndarray)):
             drift_indices = framework_indices
 
         return indices, drift_indices
@@ -515,7 +515,7 @@ class PymatgenParser(Parser):
         if len(indices) == 0:
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
-        if isinstance(framework_indices, (list, tuple)):
+        if isinstance(framework_indices, (list, tuple, np.ndarray)):
             drift_indices = framework_indices
 
         return indices, drift_indices
@@ -678,7 +678,7 @@ class MDAnalysisParser(Parser):
         if len(indices) == 0:
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
-        if isinstance(framework_indices, (list, tuple)):
+        if isinstance(framework_indices, (list, tuple, np.ndarray)):
             drift_indices = framework_indices
 
         return indices, drift_indices
@@ -711,7 +711,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
 
     n_molecules = indices.shape[0]
 
-    if isinstance(framework_indices, (list, tuple)):
+    if isinstance(framework_indices, (list, tuple, np.ndarray)):
         drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
@@ -765,7 +765,7 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     :return: Tuple containing: indices for the atoms in the trajectory used in the calculation of the
         diffusion and indices of framework atoms. 
     """
-    if isinstance(framework_indices, (list, tuple)):
+    if isinstance(framework_indices, (list, tuple, np.ndarray)):
         drift_indices = framework_indices
     else:
         drift_indices = []
-- 
2.43.0


From 22008c1f5cae5e2ac49510e44de6c023373d1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 28/28] fix: restore an MSCDBootstrap from its dictionary

---
 kinisi/diffusion.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index b4750e8..092fa2c 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -141,10 +141,13 @@ class Bootstrap:
 
         :return: New :py:class`Bootstrap` object.
         """
-        boot = cls(my_dict['delta_t'],
-                   my_dict['displacements'],
-                   my_dict['n_o'],
-                   dimension=my_dict['dimension'])
+        boot = cls.__new__(cls)
+        # The results are in the dictionary, the estimators of the subclasses need not (and cannot always) be run again
+        Bootstrap.__init__(boot,
+                           my_dict['delta_t'],
+                           my_dict['displacements'],
+                           my_dict['n_o'],
+                           dimension=my_dict['dimension'])
         # The stored data has already been sub-sampled
         boot._sub_sample_dt = my_dict['sub_sample_dt']
         boot._max_obs = my_dict['max_obs']
-- 
2.43.0

