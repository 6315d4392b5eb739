From 0f0200a245acfe4d3ee9a3ef5c1ecfebe50a5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 01/58] fix: YawedWakes instances no longer share one default
 base frame object

---
 foxes/models/wake_frames/yawed_wakes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 38e1a5d..b63404a 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -42,7 +42,7 @@ class YawedWakes(WakeFrame):
 
     def __init__(
         self,
-        base_frame=RotorWD(),
+        base_frame=None,
         alpha=0.58,
         beta=0.07,
         induction="Madsen",
@@ -54,8 +54,9 @@ class YawedWakes(WakeFrame):
 
         Parameters
         ----------
-        base_frame: foxes.core.WakeFrame
-            The wake frame from which to start
+        base_frame: foxes.core.WakeFrame, optional
+            The wake frame from which to start,
+            defaults to a new RotorWD instance
         alpha: float
             model parameter used to determine onset of far wake region,
             if not found in wake model
@@ -72,7 +73,7 @@ class YawedWakes(WakeFrame):
         """
         super().__init__(max_length_km=max_length_km)
 
-        self.base_frame = base_frame
+        self.base_frame = RotorWD() if base_frame is None else base_frame
         self.model = None
         self.alpha = alpha
         self.beta = beta
-- 
2.43.0


From 0d295248b33f36ff5aac2c4498a25213b14fa020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 02/58] fix: YawedWakes centreline of a single point

---
 foxes/models/wake_frames/yawed_wakes.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index b63404a..c66b915 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -310,11 +310,20 @@ class YawedWakes(WakeFrame):
         tdata = TData.from_points(points)
 
         nx = np.zeros_like(points)
-        nx[:, 0] = points[:, 1] - points[:, 0]
-        nx[:, -1] = points[:, -1] - points[:, -2]
-        nx[:, 1:-1] = 0.5 * (points[:, 1:-1] - points[:, :-2]) + 0.5 * (
-            points[:, 2:] - points[:, 1:-1]
-        )
+        if points.shape[1] > 1:
+            nx[:, 0] = points[:, 1] - points[:, 0]
+            nx[:, -1] = points[:, -1] - points[:, -2]
+            nx[:, 1:-1] = 0.5 * (points[:, 1:-1] - points[:, :-2]) + 0.5 * (
+                points[:, 2:] - points[:, 1:-1]
+            )
+        else:
+            # direction at a single point, from an auxiliary point nearby:
+            nx[:] = (
+                self.base_frame.get_centreline_points(
+                    algo, mdata, fdata, downwind_index, x + 1.0
+                )
+                - points
+            )
         nx /= np.linalg.norm(nx, axis=-1)[:, :, None]
 
         nz = np.zeros_like(nx)
-- 
2.43.0


From bf02e4085a0d6e7daab4d09d6a5d81368fa3687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 03/58] fix: WakeMirror does not change the hub heights in farm
 data, independent of X, Y, H being views of TXYH

---
 foxes/models/ground_models/wake_mirror.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index c00f093..8202b2e 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -80,6 +80,8 @@ class WakeMirror(GroundModel):
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
+        txyh = fdata[FV.TXYH]
+        fdata[FV.TXYH] = txyh.copy()  # X, Y, H may or may not be views of this
         for h in self.heights:
 
             fdata[FV.TXYH][:, downwind_index, 2] = hh + 2 * (h - hh)
@@ -89,7 +91,7 @@ class WakeMirror(GroundModel):
             )
 
         # reset heights:
-        fdata[FV.TXYH][:, downwind_index, 2] = hh
+        fdata[FV.TXYH] = txyh
 
     def contribute_to_point_wakes(
         self,
@@ -135,6 +137,8 @@ class WakeMirror(GroundModel):
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
+        txyh = fdata[FV.TXYH]
+        fdata[FV.TXYH] = txyh.copy()  # X, Y, H may or may not be views of this
         for h in self.heights:
 
             fdata[FV.TXYH][:, downwind_index, 2] = hh + 2 * (h - hh)
@@ -147,7 +151,7 @@ class WakeMirror(GroundModel):
             )
 
         # reset heights:
-        fdata[FV.TXYH][:, downwind_index, 2] = hh
+        fdata[FV.TXYH] = txyh
 
 
 class GroundMirror(WakeMirror):
-- 
2.43.0


From 27d75227b393478d9270b4a013b704a8998bb354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 04/58] fix: concurrent jobs of the threads and cluster engines
 no longer share algorithm and model objects

---
 foxes/engines/dask.py    |  2 ++
 foxes/engines/futures.py |  4 ++++
 foxes/engines/pool.py    | 20 +++++++++++++++-----
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 8cbf28a..24bab78 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -729,6 +729,8 @@ def _run_on_cluster(
 ):
     """Helper function for running on a cluster"""
 
+    # the scattered objects are shared by all tasks of a worker:
+    algo, model, chunk_store, cpars = deepcopy((algo, model, chunk_store, cpars))
     algo.reset_chunk_store(chunk_store)
 
     mdata = MData(
diff --git a/foxes/engines/futures.py b/foxes/engines/futures.py
index cdb808a..4750c0a 100644
--- a/foxes/engines/futures.py
+++ b/foxes/engines/futures.py
@@ -11,6 +11,8 @@ class ThreadsEngine(PoolEngine):
 
     """
 
+    shared_memory = True
+
     def _create_pool(self):
         """Creates the pool"""
         self._pool = ThreadPoolExecutor(max_workers=self.n_procs)
@@ -67,6 +69,8 @@ class ProcessEngine(ThreadsEngine):
 
     """
 
+    shared_memory = False
+
     def _create_pool(self):
         """Creates the pool"""
         self._pool = ProcessPoolExecutor(max_workers=self.n_procs)
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 2c17007..7321c71 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -1,6 +1,7 @@
 import numpy as np
 import xarray as xr
 from abc import abstractmethod
+from copy import deepcopy
 from tqdm import tqdm
 
 from foxes.core import Engine
@@ -29,6 +30,9 @@ class PoolEngine(Engine):
 
     """
 
+    # flag for jobs that run within the memory of the main process
+    shared_memory = False
+
     @abstractmethod
     def _create_pool(self):
         """Creates the pool"""
@@ -240,18 +244,24 @@ class PoolEngine(Engine):
                     out_vars=out_vars,
                 )
 
+                # concurrent jobs within this process need their own objects:
+                job_data = (algo, model, chunk_store, calc_pars)
+                if self.shared_memory and n_chunks_all > 1:
+                    job_data = deepcopy(job_data)
+                job_algo, job_model, job_cstore, job_pars = job_data
+
                 # submit model calculation:
                 jobs[(chunki_states, chunki_points)] = self._submit(
                     _run,
-                    algo,
-                    model,
+                    job_algo,
+                    job_model,
                     data,
                     iterative,
-                    chunk_store,
+                    job_cstore,
                     (i0_states, i0_targets),
-                    **calc_pars,
+                    **job_pars,
                 )
-                del data
+                del data, job_data, job_algo, job_model, job_cstore, job_pars
 
                 i0_targets = i1_targets
 
-- 
2.43.0


From fa00e22308d13b3d5b5b5520409927bae2869f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 05/58] fix: concurrent tasks of the xarray engine no longer
 share algorithm and model objects

---
 foxes/engines/dask.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 24bab78..474d64b 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -287,9 +287,15 @@ def _run_as_ufunc(
         data[1][FV.WEIGHT] = data[0][FV.WEIGHT]
         data[1].dims[FV.WEIGHT] = data[0].dims[FV.WEIGHT]
 
-    # run model calculation:
-    ensure_variables(algo, *data)
-    results = calculate(algo, *data, **calc_pars)
+    # run model calculation, with own objects for concurrent tasks:
+    job_algo, ensure_variables, calculate, calc_pars = deepcopy(
+        (algo, ensure_variables, calculate, calc_pars)
+    )
+    ensure_variables(job_algo, *data)
+    results = calculate(job_algo, *data, **calc_pars)
+    for key, cdata in job_algo.chunk_store.items():
+        if key[0] == state_inds[0]:
+            algo.chunk_store[key] = cdata
 
     # replace missing results by first input data with matching shape:
     missing = set(out_vars).difference(results.keys())
-- 
2.43.0


From 6e349c7b6f4d0ab3dd258e253b624ba4b868f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 06/58] fix: calc_farm with selected outputs works for all
 engines

---
 foxes/core/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index afaefb2..33d7ab0 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -374,7 +374,8 @@ class Engine(ABC):
 
             def cb(data, dims):
                 n_states = i1_states - i0_states
-                for o in set(out_vars).difference(data.keys()):
+                hvars = set(out_vars).union(getattr(algo, "farm_vars", []))
+                for o in hvars.difference(data.keys()):
                     data[o] = np.full(
                         (n_states, algo.n_turbines), np.nan, dtype=config.dtype_double
                     )
-- 
2.43.0


From 6ec3a0653f6f2dac6b9961bbb0fabb461a527f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 07/58] fix: xarray engine removes the axes added by
 broadcasting of loop dimensions

In point calculations the chunk data had additional axes of length one
that did not match the declared dimensions, and the first state index was
not a number: timelines failed, and the chunk store was not found.
---
 foxes/engines/dask.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 474d64b..d15cf0f 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -210,6 +210,17 @@ def _run_as_ufunc(
         prev = ldata[:n_prev]
         ldata = ldata[n_prev:]
 
+    # remove the axes that were added for broadcasting of the loop dimensions:
+    state_inds = state_inds.reshape(-1)
+    ldata = [
+        (
+            d.squeeze(axis=tuple(i for i, c in enumerate(loop_dims) if c not in dims))
+            if d.ndim > len(dims)
+            else d
+        )
+        for d, dims in zip(ldata, ldims)
+    ]
+
     # reconstruct original data:
     data = []
     for i, hvars in enumerate(dvars):
-- 
2.43.0


From 4c032acadc25ac285dc6f1d2371e79f58fbd0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 08/58] fix: algorithm and models are usable after a failed
 calculation

---
 foxes/algorithms/downwind/downwind.py   | 46 +++++++++------
 foxes/algorithms/iterative/iterative.py | 76 ++++++++++++++-----------
 foxes/core/algorithm.py                 | 64 +++++++++++----------
 3 files changed, 108 insertions(+), 78 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 79fe9d9..994baa9 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -577,13 +577,21 @@ class Downwind(Algorithm):
         self.print(f"\nOutput variables:", ", ".join(outputs))
 
         # run main calculation:
-        farm_results = super().calc_farm(
-            mlist,
-            model_data,
-            parameters=calc_pars,
-            outputs=outputs,
-            **kwargs,
-        )
+        try:
+            farm_results = super().calc_farm(
+                mlist,
+                model_data,
+                parameters=calc_pars,
+                outputs=outputs,
+                **kwargs,
+            )
+        except BaseException:
+            if finalize:
+                mlist.finalize(self, self.verbosity - 1)
+                self.finalize()
+            else:
+                self.del_model_data(mlist)
+            raise
         farm_results[FC.TNAME] = ((FC.TURBINE,), self.farm.turbine_names)
         for v in [FV.ORDER, FV.ORDER_SSEL, FV.ORDER_INV]:
             if v in farm_results:
@@ -801,15 +809,21 @@ class Downwind(Algorithm):
         self.print(f"\nOutput point variables:", ", ".join(ovars))
 
         # calculate:
-        point_results = super().calc_points(
-            mlist,
-            model_data,
-            farm_results,
-            point_data,
-            outputs=ovars,
-            parameters=calc_pars,
-            **kwargs,
-        )
+        try:
+            point_results = super().calc_points(
+                mlist,
+                model_data,
+                farm_results,
+                point_data,
+                outputs=ovars,
+                parameters=calc_pars,
+                **kwargs,
+            )
+        except BaseException:
+            if finalize:
+                mlist.finalize(self, self.verbosity - 1)
+                self.finalize()
+            raise
         del model_data, farm_results, point_data
 
         # finalize models:
diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 3dd6820..c8949b3 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -248,6 +248,15 @@ class Iterative(Downwind):
         if self._it == 0:
             super()._calc_farm_vars(mlist)
 
+    def _finalize_farm_models(self):
+        """Helper function that finalizes all models of the farm calculation"""
+        self.finalize()
+        if hasattr(self, "_mlist0"):
+            for m in self._mlist0.models:
+                if m not in self.sub_models():
+                    m.finalize(self, self.verbosity - 1)
+            del self._mlist0, self._calc_pars0
+
     def _launch_parallel_farm_calc(self, mlist, *data, **kwargs):
         """Helper function for running the main farm calculation"""
         return super()._launch_parallel_farm_calc(
@@ -295,44 +304,45 @@ class Iterative(Downwind):
         self._it = -1
         self._final_run = False
         fres_dwnd = None
-        while self._it < self.max_it:
-            self._it += 1
-
-            self.print(f"\nAlgorithm {self.name}: Iteration {self._it}\n", vlim=0)
-
-            self.__prev_farm_results = fres
-            fres = super().calc_farm(outputs=None, finalize=False, **kwargs)
-
-            fres_dwnd = fres
-            if self.conv_crit is not None:
-                if self.eval_conv_block():
-                    self.print(f"{self.name}: Convergence blocked", vlim=0)
-                else:
-                    conv = self.conv_crit.check_converged(
-                        self,
-                        self.__prev_farm_results,
-                        fres,
-                        verbosity=self.verbosity + 1,
-                    )
-                    if conv:
-                        self.print(
-                            f"\nAlgorithm {self.name}: Convergence reached.\n", vlim=0
+        try:
+            while self._it < self.max_it:
+                self._it += 1
+
+                self.print(f"\nAlgorithm {self.name}: Iteration {self._it}\n", vlim=0)
+
+                self.__prev_farm_results = fres
+                fres = super().calc_farm(outputs=None, finalize=False, **kwargs)
+
+                fres_dwnd = fres
+                if self.conv_crit is not None:
+                    if self.eval_conv_block():
+                        self.print(f"{self.name}: Convergence blocked", vlim=0)
+                    else:
+                        conv = self.conv_crit.check_converged(
+                            self,
+                            self.__prev_farm_results,
+                            fres,
+                            verbosity=self.verbosity + 1,
                         )
-                        break
-
-        # final run, recovers farm order of results:
-        self.print("Starting final run", vlim=0)
-        self._final_run = True
-        fres = super().calc_farm(outputs=outputs, finalize=False, **kwargs)
+                        if conv:
+                            self.print(
+                                f"\nAlgorithm {self.name}: Convergence reached.\n", vlim=0
+                            )
+                            break
+
+            # final run, recovers farm order of results:
+            self.print("Starting final run", vlim=0)
+            self._final_run = True
+            fres = super().calc_farm(outputs=outputs, finalize=False, **kwargs)
+        except BaseException:
+            if finalize:
+                self._finalize_farm_models()
+            raise
 
         # finalize models:
         if finalize:
             self.print("\n", vlim=0)
-            self.finalize()
-            for m in self._mlist0.models:
-                if m not in self.sub_models():
-                    m.finalize(self, self.verbosity - 1)
-            del self._mlist0, self._calc_pars0
+            self._finalize_farm_models()
 
         if ret_dwnd_order:
             return fres, fres_dwnd
diff --git a/foxes/core/algorithm.py b/foxes/core/algorithm.py
index beafde3..2c5b1a2 100644
--- a/foxes/core/algorithm.py
+++ b/foxes/core/algorithm.py
@@ -821,25 +821,29 @@ class Algorithm(Model):
             for m in [self] + list(args) + list(kwargs.values())
             if isinstance(m, Model)
         ]
-        for m in mdls:
-            m.set_running(
-                self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
+        running = []
+        try:
+            for m in mdls:
+                m.set_running(
+                    self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
+                )
+                running.append(m)
+
+            # run parallel calculation:
+            farm_results = self._launch_parallel_farm_calc(
+                *args,
+                chunk_store=chunk_store,
+                sel=None,
+                isel=None,
+                **kwargs,
             )
 
-        # run parallel calculation:
-        farm_results = self._launch_parallel_farm_calc(
-            *args,
-            chunk_store=chunk_store,
-            sel=None,
-            isel=None,
-            **kwargs,
-        )
-
-        # reset to not running:
-        for m in mdls:
-            m.unset_running(
-                self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
-            )
+        # reset to not running, also after errors:
+        finally:
+            for m in running:
+                m.unset_running(
+                    self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
+                )
 
         return farm_results
 
@@ -905,19 +909,21 @@ class Algorithm(Model):
         )
 
         # run parallel calculation:
-        chunk_store = self.reset_chunk_store()
-        point_results = self._launch_parallel_points_calc(
-            *args,
-            chunk_store=chunk_store,
-            sel=sel,
-            isel=isel,
-            **kwargs,
-        )
+        try:
+            chunk_store = self.reset_chunk_store()
+            point_results = self._launch_parallel_points_calc(
+                *args,
+                chunk_store=chunk_store,
+                sel=sel,
+                isel=isel,
+                **kwargs,
+            )
 
-        # reset to not running:
-        self.unset_running(
-            self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
-        )
+        # reset to not running, also after errors:
+        finally:
+            self.unset_running(
+                self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
+            )
 
         return point_results
 
-- 
2.43.0


From 256c1788c7b3bbeabc3891d560a43e17fa386938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 09/58] fix: engines release pools, clusters, progress bars and
 settings also after refused or failed starts, stops and calculations

---
 foxes/core/engine.py     |  19 ++-
 foxes/engines/dask.py    | 342 ++++++++++++++++++++-------------------
 foxes/engines/default.py |  46 +++---
 foxes/engines/pool.py    |  14 +-
 4 files changed, 229 insertions(+), 192 deletions(-)

diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index 33d7ab0..253aad5 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -71,12 +71,25 @@ class Engine(ABC):
         s = f"n_procs={self.n_procs}, chunk_size_states={self.chunk_size_states}, chunk_size_points={self.chunk_size_points}"
         return f"{type(self).__name__}({s})"
 
-    def __enter__(self):
+    def _check_start(self):
+        """Raises an error if the engine cannot be started"""
         if self.__entered:
             raise ValueError(f"Enter called for already entered engine")
+        engine = get_engine(error=False, default=False)
+        if not self.initialized and engine is not None:
+            raise ValueError(
+                f"Cannot initialize engine '{type(self).__name__}', since engine already set to '{type(engine).__name__}'"
+            )
+
+    def __enter__(self):
+        self._check_start()
         self.__entered = True
-        if not self.initialized:
-            self.initialize()
+        try:
+            if not self.initialized:
+                self.initialize()
+        except BaseException:
+            self.__entered = False
+            raise
         return self
 
     def __exit__(self, *exit_args):
diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index d15cf0f..700541a 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -79,26 +79,40 @@ class DaskBaseEngine(Engine):
 
         load_dask()
 
-        self.dask_config = dask_config
+        self.dask_config = dict(dask_config)
         self.progress_bar = progress_bar
+        self._pbar = None
+        self._settings = None
 
     def __enter__(self):
-        if self.progress_bar:
-            self._pbar = ProgressBar(minimum=2)
-            self._pbar.__enter__()
-        return super().__enter__()
+        self._check_start()
+        self._settings = dask.config.set(**self.dask_config)
+        try:
+            if self.progress_bar:
+                self._pbar = ProgressBar(minimum=2)
+                self._pbar.__enter__()
+            return super().__enter__()
+        except BaseException:
+            self._reset_dask(None, None, None)
+            raise
 
     def __exit__(self, *args):
-        if self.progress_bar:
-            self._pbar.__exit__(*args)
-        super().__exit__(*args)
-
-    def initialize(self):
-        """
-        Initializes the engine.
-        """
-        dask.config.set(**self.dask_config)
-        super().initialize()
+        try:
+            if self.entered:
+                self._reset_dask(*args)
+        finally:
+            super().__exit__(*args)
+
+    def _reset_dask(self, *args):
+        """Removes the progress bar and restores the dask settings"""
+        try:
+            if self._pbar is not None:
+                self._pbar.__exit__(*args)
+        finally:
+            self._pbar = None
+            if self._settings is not None:
+                self._settings.__exit__(*args)
+                self._settings = None
 
     def map(
         self,
@@ -168,21 +182,6 @@ class DaskBaseEngine(Engine):
         else:
             return data
 
-    def finalize(self, *exit_args, **exit_kwargs):
-        """
-        Finalizes the engine.
-
-        Parameters
-        ----------
-        exit_args: tuple, optional
-            Arguments from the exit function
-        exit_kwargs: dict, optional
-            Arguments from the exit function
-
-        """
-        dask.config.refresh()
-        super().finalize(*exit_args, **exit_kwargs)
-
 
 def _run_as_ufunc(
     state_inds,
@@ -440,119 +439,119 @@ class XArrayEngine(DaskBaseEngine):
         chunk_sizes_states, chunk_sizes_targets = self.calc_chunk_sizes(
             n_states, n_targets
         )
-        self.chunk_size_states = np.min(chunk_sizes_states)
-        self.chunk_size_points = np.min(chunk_sizes_targets)
-        self.print(
-            f"{type(self).__name__}: Selecting chunk_size_states = {self.chunk_size_states}, chunk_size_points = {self.chunk_size_points}"
-        )  # , level=2)
-
-        # prepare:
-        algo.reset_chunk_store(chunk_store)
-        out_coords = model.output_coords()
-        loop_dims = [d for d in self.loop_dims if d in out_coords]
-        loopd = set(loop_dims)
-
-        # extract loop-var dependent and independent data:
-        ldata = []
-        lvars = []
-        ldims = []
-        edata = []
-        evars = []
-        edims = []
-        dvars = []
-        ivars = []
-        idims = []
-        data = [
-            self.chunk_data(d)
-            for d in [model_data, farm_data, point_data]
-            if d is not None
-        ]
-        for ds in data:
-
-            hvarsl = [v for v, d in ds.items() if len(loopd.intersection(d.dims))]
-            ldata += [ds[v] for v in hvarsl]
-            ldims += [ds[v].dims for v in hvarsl]
-            lvars += hvarsl
-
-            hvarse = [v for v in ds.keys() if v not in hvarsl]
-            edata += [ds[v].values for v in hvarse]
-            edims += [ds[v].dims for v in hvarse]
-            evars += hvarse
-
-            for c, d in ds.coords.items():
-                if c in loopd:
-                    ldata.append(
-                        self.chunk_data(
-                            xr.DataArray(data=d.values, coords={c: d}, dims=[c])
+        try:
+            self.chunk_size_states = np.min(chunk_sizes_states)
+            self.chunk_size_points = np.min(chunk_sizes_targets)
+            self.print(
+                f"{type(self).__name__}: Selecting chunk_size_states = {self.chunk_size_states}, chunk_size_points = {self.chunk_size_points}"
+            )  # , level=2)
+
+            # prepare:
+            algo.reset_chunk_store(chunk_store)
+            out_coords = model.output_coords()
+            loop_dims = [d for d in self.loop_dims if d in out_coords]
+            loopd = set(loop_dims)
+
+            # extract loop-var dependent and independent data:
+            ldata = []
+            lvars = []
+            ldims = []
+            edata = []
+            evars = []
+            edims = []
+            dvars = []
+            ivars = []
+            idims = []
+            data = [
+                self.chunk_data(d)
+                for d in [model_data, farm_data, point_data]
+                if d is not None
+            ]
+            for ds in data:
+
+                hvarsl = [v for v, d in ds.items() if len(loopd.intersection(d.dims))]
+                ldata += [ds[v] for v in hvarsl]
+                ldims += [ds[v].dims for v in hvarsl]
+                lvars += hvarsl
+
+                hvarse = [v for v in ds.keys() if v not in hvarsl]
+                edata += [ds[v].values for v in hvarse]
+                edims += [ds[v].dims for v in hvarse]
+                evars += hvarse
+
+                for c, d in ds.coords.items():
+                    if c in loopd:
+                        ldata.append(
+                            self.chunk_data(
+                                xr.DataArray(data=d.values, coords={c: d}, dims=[c])
+                            )
                         )
-                    )
-                    ldims.append((c,))
-                    lvars.append(c)
-                else:
-                    edata.append(d.values)
-                    edims.append((c,))
-                    evars.append(c)
-
-            dvars.append(list(ds.keys()) + list(ds.coords.keys()))
-
-        # apply persist:
-        if persist:
-            ldata = [d.persist() for d in ldata]
-
-        # setup dask options:
-        dargs = dict(output_sizes={FC.VARS: len(out_vars)})
-        out_core_vars = [d for d in out_coords if d not in loop_dims] + [FC.VARS]
-        if FC.TURBINE in loopd and FC.TURBINE not in ldims.values():
-            dargs["output_sizes"][FC.TURBINE] = algo.n_turbines
-
-        # find states_i0:
-        state_inds = self.chunk_data(
-            xr.DataArray(
-                np.arange(ldata[0].sizes[FC.STATE]),
-                dims=FC.STATE,
-                coords={FC.STATE: ldata[0][FC.STATE].to_numpy()},
+                        ldims.append((c,))
+                        lvars.append(c)
+                    else:
+                        edata.append(d.values)
+                        edims.append((c,))
+                        evars.append(c)
+
+                dvars.append(list(ds.keys()) + list(ds.coords.keys()))
+
+            # apply persist:
+            if persist:
+                ldata = [d.persist() for d in ldata]
+
+            # setup dask options:
+            dargs = dict(output_sizes={FC.VARS: len(out_vars)})
+            out_core_vars = [d for d in out_coords if d not in loop_dims] + [FC.VARS]
+            if FC.TURBINE in loopd and FC.TURBINE not in ldims.values():
+                dargs["output_sizes"][FC.TURBINE] = algo.n_turbines
+
+            # find states_i0:
+            state_inds = self.chunk_data(
+                xr.DataArray(
+                    np.arange(ldata[0].sizes[FC.STATE]),
+                    dims=FC.STATE,
+                    coords={FC.STATE: ldata[0][FC.STATE].to_numpy()},
+                )
             )
-        )
-
-        # setup arguments for wrapper function:
-        out_coords = loop_dims + list(set(out_core_vars).difference([FC.VARS]))
-        wargs = dict(
-            algo=algo,
-            dvars=dvars,
-            lvars=lvars,
-            ldims=ldims,
-            evars=evars,
-            edims=edims,
-            edata=edata,
-            loop_dims=loop_dims,
-            out_vars=out_vars,
-            out_coords=out_coords,
-            calc_pars=calc_pars,
-            init_vars=ivars,
-            ensure_variables=model.ensure_variables,
-            calculate=model.calculate,
-        )
 
-        # run parallel computation:
-        iidims = [[c for c in d if c not in loopd] for d in idims]
-        icdims = [[c for c in d if c not in loopd] for d in ldims]
-        results = xr.apply_ufunc(
-            _run_as_ufunc,
-            state_inds,
-            *ldata,
-            input_core_dims=[[]] + iidims + icdims,
-            output_core_dims=[out_core_vars],
-            output_dtypes=[config.dtype_double],
-            dask="parallelized",
-            dask_gufunc_kwargs=dargs,
-            kwargs=wargs,
-        )
+            # setup arguments for wrapper function:
+            out_coords = loop_dims + list(set(out_core_vars).difference([FC.VARS]))
+            wargs = dict(
+                algo=algo,
+                dvars=dvars,
+                lvars=lvars,
+                ldims=ldims,
+                evars=evars,
+                edims=edims,
+                edata=edata,
+                loop_dims=loop_dims,
+                out_vars=out_vars,
+                out_coords=out_coords,
+                calc_pars=calc_pars,
+                init_vars=ivars,
+                ensure_variables=model.ensure_variables,
+                calculate=model.calculate,
+            )
 
-        results = results.assign_coords({FC.VARS: out_vars}).to_dataset(dim=FC.VARS)
+            # run parallel computation:
+            iidims = [[c for c in d if c not in loopd] for d in idims]
+            icdims = [[c for c in d if c not in loopd] for d in ldims]
+            results = xr.apply_ufunc(
+                _run_as_ufunc,
+                state_inds,
+                *ldata,
+                input_core_dims=[[]] + iidims + icdims,
+                output_core_dims=[out_core_vars],
+                output_dtypes=[config.dtype_double],
+                dask="parallelized",
+                dask_gufunc_kwargs=dargs,
+                kwargs=wargs,
+            )
 
-        # reset:
-        self.chunk_size_states = chunk_size_states0
-        self.chunk_size_points = chunk_size_points0
+            results = results.assign_coords({FC.VARS: out_vars}).to_dataset(dim=FC.VARS)
+        finally:
+            self.chunk_size_states = chunk_size_states0
+            self.chunk_size_points = chunk_size_points0
 
         # update data by calculation results:
         return results.compute(num_workers=self.n_procs)
@@ -834,25 +833,44 @@ class LocalClusterEngine(DaskBaseEngine):
         self._cluster = None
         self._client = None
 
-    def __enter__(self):
+    def _launch_cluster(self):
+        """Launches the cluster"""
         self.print("Launching local dask cluster..")
-        self._cluster = distributed.LocalCluster(
-            n_workers=self.n_procs, **self.cluster_pars
-        ).__enter__()
-        self._client = distributed.Client(self._cluster, **self.client_pars).__enter__()
-        self.print(self._cluster)
-        self.print(f"Dashboard: {self._client.dashboard_link}\n")
-        return super().__enter__()
+        return distributed.LocalCluster(n_workers=self.n_procs, **self.cluster_pars)
+
+    def __enter__(self):
+        self._check_start()
+        try:
+            self._cluster = self._launch_cluster().__enter__()
+            self._client = distributed.Client(
+                self._cluster, **self.client_pars
+            ).__enter__()
+            self.print(self._cluster)
+            self.print(f"Dashboard: {self._client.dashboard_link}\n")
+            return super().__enter__()
+        except BaseException:
+            self._shutdown_cluster(None, None, None)
+            raise
 
     def __exit__(self, *args):
-        self.print(f"Shutting down {type(self._cluster).__name__}")
-        # self._client.retire_workers()
-        # from time import sleep
-        # sleep(1)
-        # self._client.shutdown()
-        self._client.__exit__(*args)
-        self._cluster.__exit__(*args)
-        super().__exit__(*args)
+        running = self.entered
+        try:
+            super().__exit__(*args)
+        finally:
+            if running:
+                self._shutdown_cluster(*args)
+
+    def _shutdown_cluster(self, *args):
+        """Shuts down the client and the cluster"""
+        client, cluster = self._client, self._cluster
+        self._client, self._cluster = None, None
+        try:
+            if client is not None:
+                client.__exit__(*args)
+        finally:
+            if cluster is not None:
+                self.print(f"Shutting down {type(cluster).__name__}")
+                cluster.__exit__(*args)
 
     def __del__(self):
         if hasattr(self, "_client") and self._client is not None:
@@ -1063,7 +1081,8 @@ class SlurmClusterEngine(LocalClusterEngine):
 
     """
 
-    def __enter__(self):
+    def _launch_cluster(self):
+        """Launches the cluster"""
         self.print("Launching dask cluster on HPC using SLURM..")
         cargs = deepcopy(self.cluster_pars)
         nodes = cargs.pop("nodes", 1)
@@ -1074,13 +1093,8 @@ class SlurmClusterEngine(LocalClusterEngine):
             conda_hint="conda install setuptools dask-jobqueue -c conda-forge",
         )
 
-        self._cluster = dask_jobqueue.SLURMCluster(**cargs)
-        self._cluster.scale(jobs=nodes)
-        self._cluster = self._cluster.__enter__()
-        self._client = distributed.Client(self._cluster, **self.client_pars).__enter__()
-
-        self.print(self._cluster)
-        self.print(f"Dashboard: {self._client.dashboard_link}\n")
-        print(self._cluster.job_script())
+        cluster = dask_jobqueue.SLURMCluster(**cargs)
+        cluster.scale(jobs=nodes)
+        print(cluster.job_script())
 
-        return DaskBaseEngine.__enter__(self)
+        return cluster
diff --git a/foxes/engines/default.py b/foxes/engines/default.py
index 1576b10..15c2008 100644
--- a/foxes/engines/default.py
+++ b/foxes/engines/default.py
@@ -43,16 +43,17 @@ class DefaultEngine(Engine):
 
         self.finalize()
 
-        with Engine.new(
-            "process",
-            n_procs=self.n_procs,
-            chunk_size_states=self.chunk_size_states,
-            chunk_size_points=self.chunk_size_points,
-            verbosity=self.verbosity,
-        ) as e:
-            results = e.map(func, inputs, *args, **kwargs)
-
-        self.initialize()
+        try:
+            with Engine.new(
+                "process",
+                n_procs=self.n_procs,
+                chunk_size_states=self.chunk_size_states,
+                chunk_size_points=self.chunk_size_points,
+                verbosity=self.verbosity,
+            ) as e:
+                results = e.map(func, inputs, *args, **kwargs)
+        finally:
+            self.initialize()
 
         return results
 
@@ -102,17 +103,18 @@ class DefaultEngine(Engine):
 
         self.finalize()
 
-        with Engine.new(
-            ename,
-            n_procs=self.n_procs,
-            chunk_size_states=self.chunk_size_states,
-            chunk_size_points=self.chunk_size_points,
-            verbosity=self.verbosity,
-        ) as e:
-            results = e.run_calculation(
-                algo, model, model_data, farm_data, point_data=point_data, **kwargs
-            )
-
-        self.initialize()
+        try:
+            with Engine.new(
+                ename,
+                n_procs=self.n_procs,
+                chunk_size_states=self.chunk_size_states,
+                chunk_size_points=self.chunk_size_points,
+                verbosity=self.verbosity,
+            ) as e:
+                results = e.run_calculation(
+                    algo, model, model_data, farm_data, point_data=point_data, **kwargs
+                )
+        finally:
+            self.initialize()
 
         return results
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 7321c71..362edc5 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -85,12 +85,20 @@ class PoolEngine(Engine):
         pass
 
     def __enter__(self):
+        self._check_start()
         self._create_pool()
-        return super().__enter__()
+        try:
+            return super().__enter__()
+        except BaseException:
+            self._shutdown_pool()
+            raise
 
     def __exit__(self, *exit_args):
-        self._shutdown_pool()
-        super().__exit__(*exit_args)
+        try:
+            if self.entered:
+                self._shutdown_pool()
+        finally:
+            super().__exit__(*exit_args)
 
     def map(
         self,
-- 
2.43.0


From 9303d64359386c5e69a7974413cfdb5cc0b919b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 10/58] fix: engine map passes the original inputs

---
 foxes/engines/dask.py | 5 ++++-
 foxes/engines/pool.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 700541a..5b07986 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -147,7 +147,10 @@ class DaskBaseEngine(Engine):
         elif len(inputs) == 1:
             return [func(inputs[0], *args, **kwargs)]
         else:
-            inptl = np.array_split(inputs, min(self.n_procs, len(inputs)))
+            splits = np.array_split(
+                np.arange(len(inputs)), min(self.n_procs, len(inputs))
+            )
+            inptl = [[inputs[i] for i in inds] for inds in splits]
             jobs = []
             for subi in inptl:
                 jobs.append(_run_map(func, subi, *args, **kwargs))
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 362edc5..3b48423 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -133,7 +133,10 @@ class PoolEngine(Engine):
         elif len(inputs) == 1:
             return [func(inputs[0], *args, **kwargs)]
         else:
-            inptl = np.array_split(inputs, min(self.n_procs, len(inputs)))
+            splits = np.array_split(
+                np.arange(len(inputs)), min(self.n_procs, len(inputs))
+            )
+            inptl = [[inputs[i] for i in inds] for inds in splits]
             jobs = []
             for subi in inptl:
                 jobs.append(self._submit(_run_map, func, subi, *args, **kwargs))
-- 
2.43.0


From 76e35f703c411e5dd7d90ccf257169e4ce74652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 11/58] fix: iterative farm calculations do not continue from
 the chunk store of an earlier calculation

---
 foxes/algorithms/iterative/iterative.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index c8949b3..005248f 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -303,6 +303,7 @@ class Iterative(Downwind):
         fres = None
         self._it = -1
         self._final_run = False
+        self.reset_chunk_store()
         fres_dwnd = None
         try:
             while self._it < self.max_it:
-- 
2.43.0


From ccb58268c80455c8d07af591cbcc2b273b3a7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 12/58] fix: iterative calculation applies the turbine data of
 models in downwind order

---
 foxes/algorithms/iterative/iterative.py        |  4 +++-
 .../iterative/models/farm_wakes_calc.py        | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 005248f..c278038 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -227,7 +227,9 @@ class Iterative(Downwind):
 
                 # add model that calculates wake effects:
                 mlist.models.append(
-                    self.get_model("FarmWakesCalculation")(urelax=urelax)
+                    self.get_model("FarmWakesCalculation")(
+                        urelax=urelax, order_mdata=True
+                    )
                 )
                 calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
 
diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 3d85c90..d1f14ca 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -14,12 +14,14 @@ class FarmWakesCalculation(FarmDataModel):
     ----------
     urelax: foxes.algorithms.iterative.models.URelax
         The under-relaxation model
+    order_mdata: bool
+        Flag for bringing the model data into downwind order
 
     :group: algorithms.iterative.models
 
     """
 
-    def __init__(self, urelax=None):
+    def __init__(self, urelax=None, order_mdata=False):
         """
         Constructor.
 
@@ -27,10 +29,14 @@ class FarmWakesCalculation(FarmDataModel):
         ----------
         urelax: foxes.algorithms.iterative.models.URelax, optional
             The under-relaxation model
+        order_mdata: bool
+            Flag for bringing the model data into downwind order,
+            i.e., for runs that do not start with `InitFarmData`
 
         """
         super().__init__()
         self.urelax = urelax
+        self.order_mdata = order_mdata
 
     def output_farm_vars(self, algo):
         """
@@ -87,6 +93,16 @@ class FarmWakesCalculation(FarmDataModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
+        # apply downwind order to all model data, as in InitFarmData:
+        if self.order_mdata:
+            ssel = fdata[FV.ORDER_SSEL]
+            order = fdata[FV.ORDER]
+            for k in mdata.keys():
+                if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
+                    mdata[k] != mdata[k][0, 0, None, None]
+                ):
+                    mdata[k] = mdata[k][ssel, order]
+
         # collect ambient rotor results and weights:
         rotor = algo.rotor_model
         rwghts = algo.get_from_chunk_store(FC.ROTOR_WEIGHTS, mdata=mdata)
-- 
2.43.0


From 392c6d204b30c6e087a6af77b37a80648af08db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 13/58] fix: SetFarmVars data belongs to the turbines it was
 given for

---
 foxes/algorithms/downwind/models/init_farm_data.py | 4 ++++
 foxes/models/turbine_models/set_farm_vars.py       | 9 +--------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 2d23d61..7414210 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -128,6 +128,10 @@ class InitFarmData(FarmDataModel):
             if np.any(fdata[v] != fdata[v][0, 0, None, None]):
                 fdata[v] = fdata[v][ssel, order]
         fdata[FV.YAW] = fdata[FV.WD].copy()
+        ovars = self.output_farm_vars(algo)
+        for v in algo.farm_controller.pre_rotor_models.output_farm_vars(algo):
+            if v not in ovars:
+                fdata[v] = fdata[v][ssel, order]
         for k in mdata.keys():
             if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
                 mdata[k] != mdata[k][0, 0, None, None]
diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index d3e0f5c..a9748b6 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -271,18 +271,11 @@ class SetFarmVars(TurbineModel):
         i0 = mdata.states_i0(counter=True)
         if not self.once or i0 not in self.__once_done:
 
-            if self.pre_rotor:
-                order = np.s_[:]
-                ssel = np.s_[:]
-            else:
-                order = fdata[FV.ORDER]
-                ssel = fdata[FV.ORDER_SSEL]
-
             bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
             bsel[st_sel] = True
 
             for v in self.vars:
-                data = mdata[self.var(v)][ssel, order]
+                data = mdata[self.var(v)]
                 hsel = ~np.isnan(data)
                 tsel = bsel & hsel
 
-- 
2.43.0


From 1ef294d057020e5ecf61abf7b2bd1b74127d2c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 14/58] fix: one point flow states know the times of the
 selected states

---
 foxes/input/states/one_point_flow.py | 91 ++++------------------------
 1 file changed, 11 insertions(+), 80 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 012c3a8..db934f3 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -138,7 +138,9 @@ class OnePointFlowStates(States):
 
         # pre-calc data:
         self.WEIGHT = self.var(FV.WEIGHT)
+        self.TIMEI = self.var("time_i")
         idata = super().load_data(algo, verbosity)
+        idata["data_vars"][self.TIMEI] = ((FC.STATE,), np.arange(self.size()))
         idata["data_vars"][self.WEIGHT] = Timelines._precalc_data(
             self, algo, self.base_states, self.heights, verbosity, needs_res=True
         )
@@ -186,88 +188,16 @@ class OnePointFlowStates(States):
         """
         return self.base_states.output_point_vars(algo)
 
-    def set_running(
-        self,
-        algo,
-        data_stash,
-        sel=None,
-        isel=None,
-        verbosity=0,
-    ):
-        """
-        Sets this model status to running, and moves
-        all large data to stash.
-
-        The stashed data will be returned by the
-        unset_running() function after running calculations.
-
-        Parameters
-        ----------
-        algo: foxes.core.Algorithm
-            The calculation algorithm
-        data_stash: dict
-            Large data stash, this function adds data here.
-            Key: model name. Value: dict, large model data
-        sel: dict, optional
-            The subset selection dictionary
-        isel: dict, optional
-            The index subset selection dictionary
-        verbosity: int
-            The verbosity level, 0 = silent
-
-        """
-        super().set_running(algo, data_stash, sel, isel, verbosity)
-
-        if sel is not None or isel is not None:
-            data_stash[self.name]["data"] = self.timelines_data
-
-            if isel is not None:
-                self.timelines_data = self.timelines_data.isel(isel)
-            if sel is not None:
-                self.timelines_data = self.timelines_data.sel(sel)
-
-    def unset_running(
-        self,
-        algo,
-        data_stash,
-        sel=None,
-        isel=None,
-        verbosity=0,
-    ):
-        """
-        Sets this model status to not running, recovering large data
-        from stash
-
-        Parameters
-        ----------
-        algo: foxes.core.Algorithm
-            The calculation algorithm
-        data_stash: dict
-            Large data stash, this function adds data here.
-            Key: model name. Value: dict, large model data
-        sel: dict, optional
-            The subset selection dictionary
-        isel: dict, optional
-            The index subset selection dictionary
-        verbosity: int
-            The verbosity level, 0 = silent
-
-        """
-        super().unset_running(algo, data_stash, sel, isel, verbosity)
-
-        data = data_stash[self.name]
-        if "data" in data:
-            self.timelines_data = data.pop("data")
-
     def calc_states_indices(self, algo, mdata, points, hi, ref_xy):
 
         n_states, n_points = points.shape[:2]
         dxy = self.timelines_data["dxy"].to_numpy()[hi]
+        n_times = dxy.shape[0]
 
-        i0 = mdata.states_i0(counter=True)
+        time_i = mdata[self.TIMEI][:, None]
         trace_p = points[:, :, :2] - ref_xy[:, :, :2]
         trace_si = np.zeros((n_states, n_points), dtype=config.dtype_int)
-        trace_si[:] = i0 + np.arange(n_states)[:, None]
+        trace_si[:] = time_i
         coeffs = np.full((n_states, n_points), np.nan, dtype=config.dtype_double)
 
         # flake8: noqa: F821
@@ -321,9 +251,9 @@ class OnePointFlowStates(States):
             trace_p = np.where(
                 sel[:, :, None], points[:, :, :2] - ref_xy[:, :, :2], trace_p
             )
-            trace_si = np.where(sel, i0 + np.arange(n_states)[:, None] + 1, trace_si)
+            trace_si = np.where(sel, time_i + 1, trace_si)
 
-            sel &= trace_si < algo.n_states
+            sel &= trace_si < n_times
             tshift = 1
             while np.any(sel):
 
@@ -336,7 +266,7 @@ class OnePointFlowStates(States):
                 tshift += 1
                 sel0 = np.isnan(coeffs)
                 trace_si[sel0 & sel] += 1
-                sel = sel0 & (trace_si < algo.n_states)
+                sel = sel0 & (trace_si < n_times)
 
                 del trs, sel0, hdxy
 
@@ -394,15 +324,16 @@ class OnePointFlowStates(States):
             sts = trace_si[hi]
             cfs = coeffs[hi]
             data = self.timelines_data[v].to_numpy()[hi]
+            n_times = data.shape[0]
             out = np.zeros(sts.shape, dtype=config.dtype_double)
 
             sel_low = sts < 0
             if np.any(sel_low):
                 out[sel_low] = data[0]
 
-            sel_hi = sts >= algo.n_states
+            sel_hi = sts >= n_times
             if np.any(sel_hi):
-                out[sel_hi] = data[algo.n_states - 1]
+                out[sel_hi] = data[n_times - 1]
 
             sel = (~sel_low) & (~sel_hi) & (cfs <= 0)
             if np.any(sel):
-- 
2.43.0


From b612226dae46f02aebcef28a757300a0e64c98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 15/58] fix: field data that is read during the calculation
 belongs to the selected states

---
 foxes/input/states/field_data_nc.py | 59 ++++++++++++++---------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 8a1b3bc..e188b67 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -497,6 +497,11 @@ class FieldDataNC(States):
             if weights is not None:
                 idata["data_vars"][self.WEIGHT] = ((FC.STATE,), weights)
 
+        else:
+            # the position within the source of each of the states:
+            self.SINDEX = self.var("state_i")
+            idata["data_vars"][self.SINDEX] = ((FC.STATE,), np.arange(self._N))
+
         return idata
 
     def set_running(
@@ -664,9 +669,7 @@ class FieldDataNC(States):
 
         # case lazy:
         elif self.load_mode == "lazy":
-            i0 = mdata.states_i0(counter=True)
-            s = slice(i0, i0 + n_states)
-            ds = self.data_source.isel({self.states_coord: s}).load()
+            ds = self.data_source.isel({self.states_coord: mdata[self.SINDEX]}).load()
             __, h, y, x, data, weights = self._get_data(ds, coords, verbosity=0)
             del ds
 
@@ -676,41 +679,37 @@ class FieldDataNC(States):
             if self.weight_ncvar is not None:
                 vars += [self.weight_ncvar]
 
-            i0 = mdata.states_i0(counter=True)
-            i1 = i0 + n_states
+            sinds = mdata[self.SINDEX]
             j0 = 0
             data = []
+            order = []
             for fpath, n in self._files_maxi.items():
-                if i0 < j0:
-                    break
-                else:
-                    j1 = j0 + n
-                    if i0 < j1:
-                        a = i0 - j0
-                        b = min(i1, j1) - j0
-                        isel = copy(self.isel)
-                        isel[self.states_coord] = slice(a, b)
-
-                        data.append(
-                            _read_nc_file(
-                                fpath,
-                                coords=coords,
-                                vars=vars,
-                                nc_engine=config.nc_engine,
-                                isel=isel,
-                                sel=self.sel,
-                                minimal=False,
-                            )
+                hsel = np.flatnonzero((sinds >= j0) & (sinds < j0 + n))
+                if len(hsel):
+                    isel = copy(self.isel)
+                    isel[self.states_coord] = sinds[hsel] - j0
+
+                    data.append(
+                        _read_nc_file(
+                            fpath,
+                            coords=coords,
+                            vars=vars,
+                            nc_engine=config.nc_engine,
+                            isel=isel,
+                            sel=self.sel,
+                            minimal=False,
                         )
+                    )
+                    order.append(hsel)
+                j0 += n
 
-                        i0 += b - a
-                    j0 = j1
-
+            order = np.concatenate(order)
             assert (
-                i0 == i1
-            ), f"States '{self.name}': Missing states for load_mode '{self.load_mode}': (i0, i1) = {(i0, i1)}"
+                len(order) == n_states
+            ), f"States '{self.name}': Missing states for load_mode '{self.load_mode}': {sinds}"
 
             data = xr.concat(data, dim=self.states_coord)
+            data = data.isel({self.states_coord: np.argsort(order)})
             __, h, y, x, data, weights = self._get_data(data, coords, verbosity=0)
 
         else:
-- 
2.43.0


From 13b0674ba7455b663c125600b33e274651f25da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 16/58] fix: field data is restricted to the x bounds of the
 farm

---
 foxes/input/states/field_data_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index e188b67..a257899 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -387,7 +387,7 @@ class FieldDataNC(States):
                     )
                 self.sel.update(
                     {
-                        self.x_coord: slice(xy_min[0], xy_max[1]),
+                        self.x_coord: slice(xy_min[0], xy_max[0]),
                         self.y_coord: slice(xy_min[1], xy_max[1]),
                     }
                 )
-- 
2.43.0


From 3b35b9c2812ce6aebe9f07a4e22f5b6580f43f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 17/58] fix: field data states do not change the selection
 dictionary of the user

---
 foxes/input/states/field_data_nc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index a257899..58cc1e1 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -171,8 +171,8 @@ class FieldDataNC(States):
         self.weight_ncvar = weight_ncvar
         self.load_mode = load_mode
         self.time_format = time_format
-        self.sel = sel if sel is not None else {}
-        self.isel = isel if isel is not None else {}
+        self.sel = dict(sel) if sel is not None else {}
+        self.isel = dict(isel) if isel is not None else {}
         self.interpn_pars = interpn_pars
         self.interp_nans = interp_nans
         self.bounds_extra_space = bounds_extra_space
-- 
2.43.0


From 70f8bdbee180593e066a583291c56b41aeed1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 18/58] fix: sequential dynamic wakes start anew with each
 iteration

---
 foxes/models/wake_frames/seq_dynamic_wakes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/foxes/models/wake_frames/seq_dynamic_wakes.py b/foxes/models/wake_frames/seq_dynamic_wakes.py
index 60533b0..936e618 100644
--- a/foxes/models/wake_frames/seq_dynamic_wakes.py
+++ b/foxes/models/wake_frames/seq_dynamic_wakes.py
@@ -92,6 +92,7 @@ class SeqDynamicWakes(FarmOrder):
             )
 
         # init wake traces data:
+        self._last_counter = 0
         self._traces_p = np.zeros(
             (algo.n_states, algo.n_turbines, 3), dtype=config.dtype_double
         )
@@ -167,6 +168,13 @@ class SeqDynamicWakes(FarmOrder):
         counter = algo.states.counter
         N = counter + 1
 
+        # a new iteration starts without wakes:
+        if counter < self._last_counter:
+            self._traces_p[:] = 0
+            self._traces_v[:] = 0
+            self._traces_l[:] = np.nan
+        self._last_counter = counter
+
         if np.isnan(self._traces_l[counter, downwind_index]):
 
             # new wake starts at turbine:
-- 
2.43.0


From bcce8dc6fd948d1033157c2fe2dd89910f7e0a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 19/58] fix: sequential point calculation selects the points of
 the current state

---
 foxes/algorithms/sequential/sequential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index abcc3df..b6a91c2 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -219,7 +219,10 @@ class Sequential(Iterative):
                 return fres
 
             else:
-                pres = super().calc_points(fres, points=self.points, finalize=False)
+                points = np.asarray(self.points)
+                if points.ndim == 3 and points.shape[0] == len(self._inds):
+                    points = points[self._i, None]
+                pres = super().calc_points(fres, points=points, finalize=False)
 
                 if self._point_results is None:
                     n_states = self._model_data.sizes[FC.STATE]
-- 
2.43.0


From 739e74e5d1952b29f75520591ad35698dac69df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 20/58] fix: a single task of the xarray engine keeps working
 on the objects of the caller

---
 foxes/engines/dask.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 5b07986..330881f 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -203,6 +203,7 @@ def _run_as_ufunc(
     init_vars,
     ensure_variables,
     calculate,
+    own_objects=True,
 ):
     """
     Wrapper that mitigates between apply_ufunc and `calculate`.
@@ -301,9 +302,11 @@ def _run_as_ufunc(
         data[1].dims[FV.WEIGHT] = data[0].dims[FV.WEIGHT]
 
     # run model calculation, with own objects for concurrent tasks:
-    job_algo, ensure_variables, calculate, calc_pars = deepcopy(
-        (algo, ensure_variables, calculate, calc_pars)
-    )
+    job_algo = algo
+    if own_objects:
+        job_algo, ensure_variables, calculate, calc_pars = deepcopy(
+            (algo, ensure_variables, calculate, calc_pars)
+        )
     ensure_variables(job_algo, *data)
     results = calculate(job_algo, *data, **calc_pars)
     for key, cdata in job_algo.chunk_store.items():
@@ -534,6 +537,7 @@ class XArrayEngine(DaskBaseEngine):
                 init_vars=ivars,
                 ensure_variables=model.ensure_variables,
                 calculate=model.calculate,
+                own_objects=len(chunk_sizes_states) * len(chunk_sizes_targets) > 1,
             )
 
             # run parallel computation:
-- 
2.43.0


From 303eb49c1807dca129d218adf2c53e89e01ab069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 21/58] fix: calculations do not change the calculation
 parameters of the user

---
 foxes/algorithms/downwind/downwind.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 994baa9..963d572 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -435,7 +435,7 @@ class Downwind(Algorithm):
 
         # 0) run pre-rotor turbine models via farm controller:
         mlist.models.append(self.farm_controller)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1]["pre_rotor"] = True
 
         # 1) set initial data:
@@ -444,12 +444,12 @@ class Downwind(Algorithm):
 
         # 2) calculate ambient rotor results:
         mlist.models.append(self.rotor_model)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1].update({"store": True})
 
         # 3) run post-rotor turbine models via farm controller:
         mlist.models.append(self.farm_controller)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1]["pre_rotor"] = False
 
         # 4) copy results to ambient, requires self.farm_vars:
-- 
2.43.0


From bff2230073f02b2026489eadb3f3bcfc02e012eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 22/58] fix: models do not change the data frames of the user,
 sector management belongs to the current farm

---
 .../turbine_models/sector_management.py       | 26 +++++++++----------
 .../turbine_types/wsrho2PCt_from_two.py       |  4 +--
 .../models/turbine_types/wsti2PCt_from_two.py |  4 +--
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 98f7a7e..34be87c 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -96,19 +96,19 @@ class SectorManagement(TurbineModel):
                 print(f"{self.name}: Reading file {fpath}")
             data = PandasFileHelper.read_file(fpath, **self._rpars)
 
-        if self._trbs is None:
-            if self._col_i is not None and self._col_t is None:
-                data.reset_index(inplace=True)
-            elif self._col_i is None and self._col_t is not None:
-                tnames = algo.farm.turbine_names
-                inds = [tnames.index(name) for name in data[self._col_t]]
-                data[FC.TURBINE] = inds
-                self._col_i = FC.TURBINE
-            else:
-                raise KeyError(
-                    f"{self.name}: Please either specify 'col_tinds' or 'col_tnames'"
-                )
-            self._trbs = data[self._col_i].to_numpy()
+        col_i = self._col_i
+        if col_i is not None and self._col_t is None:
+            data = data.reset_index()
+        elif col_i is None and self._col_t is not None:
+            tnames = algo.farm.turbine_names
+            inds = [tnames.index(name) for name in data[self._col_t]]
+            data = data.assign(**{FC.TURBINE: inds})
+            col_i = FC.TURBINE
+        else:
+            raise KeyError(
+                f"{self.name}: Please either specify 'col_tinds' or 'col_tnames'"
+            )
+        self._trbs = data[col_i].to_numpy()
         n_trbs = len(self._trbs)
 
         self._rcols = []
diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index b69611f..91e617f 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -192,7 +192,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._rho_P = np.sort(data.columns.to_numpy())
@@ -211,7 +211,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._rho_ct = np.sort(data.columns.to_numpy())
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index e2c42f7..26d1959 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -204,7 +204,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._ti_P = np.sort(data.columns.to_numpy())
@@ -223,7 +223,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._ti_ct = np.sort(data.columns.to_numpy())
-- 
2.43.0


From c402174368a2145bb446a0d32bf47def50f2cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 23/58] fix: each algorithm has its own farm controller, model
 books may be shared between farms

---
 foxes/algorithms/downwind/downwind.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 963d572..683ff95 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -1,4 +1,5 @@
 import numpy as np
+from copy import copy
 
 from foxes.core import Algorithm, FarmDataModelList, get_engine
 from foxes.core import PointDataModel, PointDataModelList, FarmController
@@ -184,7 +185,11 @@ class Downwind(Algorithm):
             checkw=False,
         )
 
-        self.__farm_controller = self.mbook.farm_controllers.get_item(farm_controller)
+        # the controller keeps data of the farm, which may differ between
+        # algorithms that share the model book:
+        self.__farm_controller = copy(
+            self.mbook.farm_controllers.get_item(farm_controller)
+        )
         self.farm_controller.name = farm_controller
         self.farm_controller.find_turbine_types(self)
 
-- 
2.43.0


From c6b5b84cb80f569830283505ecbabfbe5ffdce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 24/58] fix: rotor, top hat and dynamic wakes models belong to
 the current algorithm, not to an earlier one

---
 foxes/core/rotor_model.py                 | 23 ++++++++++++++++++++++-
 foxes/models/partial_wakes/top_hat.py     |  3 ++-
 foxes/models/wake_frames/dynamic_wakes.py |  3 ++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index bd6fb26..ef0d9b9 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -42,6 +42,27 @@ class RotorModel(FarmDataModel):
         """
         super().__init__()
         self.calc_vars = calc_vars
+        self._calc_vars0 = None if calc_vars is None else list(calc_vars)
+
+    def initialize(self, algo, verbosity=0, force=False):
+        """
+        Initializes the model.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+        verbosity: int
+            The verbosity level, 0 = silent
+        force: bool
+            Overwrite existing data
+
+        """
+        if not self.initialized:
+            self.calc_vars = (
+                None if self._calc_vars0 is None else list(self._calc_vars0)
+            )
+        super().initialize(algo, verbosity, force)
 
     def output_farm_vars(self, algo):
         """
@@ -67,7 +88,7 @@ class RotorModel(FarmDataModel):
             if FV.WS in vrs:
                 self.calc_vars = [FV.REWS] + [v for v in vrs if v != FV.WS]
             else:
-                self.calc_vars = vrs
+                self.calc_vars = list(vrs)
 
             if algo.farm_controller.needs_rews2() and FV.REWS2 not in self.calc_vars:
                 self.calc_vars.append(FV.REWS2)
diff --git a/foxes/models/partial_wakes/top_hat.py b/foxes/models/partial_wakes/top_hat.py
index a48c050..c6a415f 100644
--- a/foxes/models/partial_wakes/top_hat.py
+++ b/foxes/models/partial_wakes/top_hat.py
@@ -61,6 +61,7 @@ class PartialTopHat(PartialCentre):
         """
         super().__init__()
         self.rotor_model = rotor_model
+        self._algo_rotor = rotor_model is None
 
     def initialize(self, algo, verbosity=0):
         """
@@ -74,7 +75,7 @@ class PartialTopHat(PartialCentre):
             The verbosity level, 0 = silent
 
         """
-        if self.rotor_model is None:
+        if self._algo_rotor and not self.initialized:
             self.rotor_model = algo.rotor_model
 
         super().initialize(algo, verbosity)
diff --git a/foxes/models/wake_frames/dynamic_wakes.py b/foxes/models/wake_frames/dynamic_wakes.py
index ade5a91..0ae6662 100644
--- a/foxes/models/wake_frames/dynamic_wakes.py
+++ b/foxes/models/wake_frames/dynamic_wakes.py
@@ -62,6 +62,7 @@ class DynamicWakes(WakeFrame):
         super().__init__(max_length_km=max_length_km, **kwargs)
 
         self.max_age = max_age
+        self._max_age = max_age
         self.cl_ipars = cl_ipars
         self.dt_min = dt_min
         self._mage_ws = max_age_mean_ws
@@ -111,7 +112,7 @@ class DynamicWakes(WakeFrame):
         self._dt = np.append(self._dt, self._dt[-1, None], axis=0)
 
         # find max age if not given:
-        if self.max_age is None:
+        if self._max_age is None:
             step = np.mean(self._mage_ws * self._dt)
             self.max_age = max(int(self.max_length_km * 1e3 / step), 1)
             if verbosity > 0:
-- 
2.43.0


From 086f9ca418ff3ea42284ee15038d5f16948e5617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 25/58] fix: models are usable after a refused or failed
 initialization

---
 foxes/algorithms/downwind/downwind.py   | 122 ++++++++++++------------
 foxes/algorithms/iterative/iterative.py |   8 +-
 foxes/core/model.py                     |  33 ++++---
 3 files changed, 90 insertions(+), 73 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 683ff95..7e25233 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -422,7 +422,11 @@ class Downwind(Algorithm):
         self.init_states()
 
         self.print(f"\nInitializing algorithm '{self.name}'")
-        super().initialize()
+        try:
+            super().initialize()
+        except BaseException:
+            self.states.finalize(self, self.verbosity - 1)
+            raise
 
     def _collect_farm_models(
         self,
@@ -563,26 +567,26 @@ class Downwind(Algorithm):
             outputs = self.DEFAULT_FARM_OUTPUTS
         mlist, calc_pars = self._collect_farm_models(outputs, calc_parameters, ambient)
 
-        # initialize models:
-        if not mlist.initialized:
-            mlist.initialize(self, self.verbosity - 1)
-            self._calc_farm_vars(mlist)
-        self._print_model_oder(mlist, calc_pars)
-
-        # update outputs:
-        if outputs is None:
-            outputs = self.farm_vars
-        else:
-            outputs = sorted(list(set(outputs).intersection(self.farm_vars)))
+        try:
+            # initialize models:
+            if not mlist.initialized:
+                mlist.initialize(self, self.verbosity - 1)
+                self._calc_farm_vars(mlist)
+            self._print_model_oder(mlist, calc_pars)
+
+            # update outputs:
+            if outputs is None:
+                outputs = self.farm_vars
+            else:
+                outputs = sorted(list(set(outputs).intersection(self.farm_vars)))
 
-        # get input model data:
-        model_data = self.get_models_data()
-        self.print("\nInput data:\n\n", model_data, "\n")
-        self.print(f"\nFarm variables:", ", ".join(self.farm_vars))
-        self.print(f"\nOutput variables:", ", ".join(outputs))
+            # get input model data:
+            model_data = self.get_models_data()
+            self.print("\nInput data:\n\n", model_data, "\n")
+            self.print(f"\nFarm variables:", ", ".join(self.farm_vars))
+            self.print(f"\nOutput variables:", ", ".join(outputs))
 
-        # run main calculation:
-        try:
+            # run main calculation:
             farm_results = super().calc_farm(
                 mlist,
                 model_data,
@@ -594,7 +598,7 @@ class Downwind(Algorithm):
             if finalize:
                 mlist.finalize(self, self.verbosity - 1)
                 self.finalize()
-            else:
+            elif mlist.initialized:
                 self.del_model_data(mlist)
             raise
         farm_results[FC.TNAME] = ((FC.TURBINE,), self.farm.turbine_names)
@@ -774,47 +778,47 @@ class Downwind(Algorithm):
             calc_parameters, point_models, ambient
         )
 
-        # initialize models:
-        if not mlist.initialized:
-            mlist.initialize(self, self.verbosity - 1)
-
-        # subset selections:
-        sel = {} if states_sel is None else {FC.STATE: states_sel}
-        isel = {} if states_isel is None else {FC.STATE: states_isel}
-        if states_isel is not None:
-            farm_results = farm_results.isel(isel)
-        if states_sel is not None:
-            farm_results = farm_results.sel(sel)
-        n_states = farm_results.sizes[FC.STATE]
-
-        # get input model data:
-        model_data = self.get_models_data(sel=sel, isel=isel)
-        if persist_mdata:
-            model_data = model_data.persist()
-        self.print("\nInput data:\n\n", model_data, "\n")
-        self.print(f"\nOutput farm variables:", ", ".join(self.farm_vars))
-
-        # chunk farm results:
-        self.print("\nInput farm data:\n\n", farm_results, "\n")
-
-        # get point data:
-        if FC.STATE in farm_results.coords:
-            sinds = farm_results.coords[FC.STATE]
-        elif model_data is not None and FC.STATE in model_data.coords:
-            sinds = model_data.coords[FC.STATE]
-        else:
-            sinds = None
-        point_data = self.new_point_data(points, sinds, n_states=n_states)
-        if persist_pdata:
-            point_data = point_data.persist()
-        self.print("\nInput point data:\n\n", point_data, "\n")
+        try:
+            # initialize models:
+            if not mlist.initialized:
+                mlist.initialize(self, self.verbosity - 1)
+
+            # subset selections:
+            sel = {} if states_sel is None else {FC.STATE: states_sel}
+            isel = {} if states_isel is None else {FC.STATE: states_isel}
+            if states_isel is not None:
+                farm_results = farm_results.isel(isel)
+            if states_sel is not None:
+                farm_results = farm_results.sel(sel)
+            n_states = farm_results.sizes[FC.STATE]
+
+            # get input model data:
+            model_data = self.get_models_data(sel=sel, isel=isel)
+            if persist_mdata:
+                model_data = model_data.persist()
+            self.print("\nInput data:\n\n", model_data, "\n")
+            self.print(f"\nOutput farm variables:", ", ".join(self.farm_vars))
+
+            # chunk farm results:
+            self.print("\nInput farm data:\n\n", farm_results, "\n")
+
+            # get point data:
+            if FC.STATE in farm_results.coords:
+                sinds = farm_results.coords[FC.STATE]
+            elif model_data is not None and FC.STATE in model_data.coords:
+                sinds = model_data.coords[FC.STATE]
+            else:
+                sinds = None
+            point_data = self.new_point_data(points, sinds, n_states=n_states)
+            if persist_pdata:
+                point_data = point_data.persist()
+            self.print("\nInput point data:\n\n", point_data, "\n")
 
-        # check vars:
-        ovars = mlist.output_point_vars(self) if outputs is None else outputs
-        self.print(f"\nOutput point variables:", ", ".join(ovars))
+            # check vars:
+            ovars = mlist.output_point_vars(self) if outputs is None else outputs
+            self.print(f"\nOutput point variables:", ", ".join(ovars))
 
-        # calculate:
-        try:
+            # calculate:
             point_results = super().calc_points(
                 mlist,
                 model_data,
diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index c278038..963371b 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -131,8 +131,12 @@ class Iterative(Downwind):
         """
         super().initialize()
         if len(self._mod_cutin):
-            for t in self.farm_controller.turbine_types:
-                t.modify_cutin(**self._mod_cutin)
+            try:
+                for t in self.farm_controller.turbine_types:
+                    t.modify_cutin(**self._mod_cutin)
+            except BaseException:
+                self.finalize()
+                raise
 
     @property
     def urelax(self):
diff --git a/foxes/core/model.py b/foxes/core/model.py
index a451056..fa19e2a 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -142,18 +142,27 @@ class Model(ABC):
             raise ValueError(f"Model '{self.name}': Cannot initialize while running")
         if not self.initialized:
             pr = False
-            for m in self.sub_models():
-                if not m.initialized:
-                    if verbosity > 1 and not pr:
-                        print(f">> {self.name}: Starting sub-model initialization >> ")
-                        pr = True
-                    m.initialize(algo, verbosity)
-            if pr:
-                print(f"<< {self.name}: Finished sub-model initialization << ")
-
-            if verbosity > 0:
-                print(f"Initializing model '{self.name}'")
-            algo.store_model_data(self, self.load_data(algo, verbosity), force)
+            started = []
+            try:
+                for m in self.sub_models():
+                    if not m.initialized:
+                        if verbosity > 1 and not pr:
+                            print(
+                                f">> {self.name}: Starting sub-model initialization >> "
+                            )
+                            pr = True
+                        started.append(m)
+                        m.initialize(algo, verbosity)
+                if pr:
+                    print(f"<< {self.name}: Finished sub-model initialization << ")
+
+                if verbosity > 0:
+                    print(f"Initializing model '{self.name}'")
+                algo.store_model_data(self, self.load_data(algo, verbosity), force)
+            except BaseException:
+                for m in started:
+                    m.finalize(algo, verbosity)
+                raise
 
             self.__initialized = True
 
-- 
2.43.0


From 0db25ff7a0d5c2116c53ac7dcd6ce8dd5aa1d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 26/58] fix: turbine data from files accepts plain file names
 and keeps the given parameters

---
 foxes/data/parse.py                              | 2 ++
 foxes/models/turbine_types/CpCt_from_two.py      | 1 +
 foxes/models/turbine_types/PCt_from_two.py       | 1 +
 foxes/models/turbine_types/wsrho2PCt_from_two.py | 1 +
 foxes/models/turbine_types/wsti2PCt_from_two.py  | 1 +
 5 files changed, 6 insertions(+)

diff --git a/foxes/data/parse.py b/foxes/data/parse.py
index d33358f..716bb09 100644
--- a/foxes/data/parse.py
+++ b/foxes/data/parse.py
@@ -42,6 +42,8 @@ def parse_Pct_file_name(file_name):
         pieces = sname.split("-")
     elif "_" in sname:
         pieces = sname.split("_")
+    else:
+        pieces = [pars["name"]]
 
     pars["name"] = pieces[0]
     pieces = pieces[1:]
diff --git a/foxes/models/turbine_types/CpCt_from_two.py b/foxes/models/turbine_types/CpCt_from_two.py
index 73c55a4..1b478fc 100644
--- a/foxes/models/turbine_types/CpCt_from_two.py
+++ b/foxes/models/turbine_types/CpCt_from_two.py
@@ -56,6 +56,7 @@ class CpCtFromTwo(PCtFromTwo):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_cp, data_source_ct)
+            pars.update(parameters)
             path_cp = get_input_path(data_source_cp)
             path_ct = get_input_path(data_source_ct)
             data_cp = PandasFileHelper.read_file(path_cp, **pd_file_read_pars_cp)
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 8fa8bb8..03a2615 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -99,6 +99,7 @@ class PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index 91e617f..4eb9d87 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -92,6 +92,7 @@ class WsRho2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 26d1959..91f9960 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -99,6 +99,7 @@ class WsTI2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
-- 
2.43.0


From 64466aaa80881069420282d4d858208d5fa5ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 27/58] fix: FieldDataNC selects states in all load modes,
 follows the farm when reused, and accepts data in memory

---
 foxes/input/states/field_data_nc.py | 192 ++++++++++++++++------------
 1 file changed, 108 insertions(+), 84 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 58cc1e1..6c5831d 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -1,7 +1,6 @@
 import numpy as np
 import pandas as pd
 import xarray as xr
-from copy import copy
 from scipy.interpolate import interpn
 
 from foxes.core import States, get_engine
@@ -22,14 +21,22 @@ def _read_nc_file(
     minimal,
 ):
     """Helper function for nc file reading"""
-    data = xr.open_dataset(fpath, engine=nc_engine)
+    if isinstance(fpath, xr.Dataset):
+        data = fpath
+    else:
+        data = xr.open_dataset(fpath, engine=nc_engine)
     for c in coords:
         if c is not None and c not in data:
             raise KeyError(
                 f"Missing coordinate '{c}' in file {fpath}, got: {list(data.coords.keys())}"
             )
     if minimal:
-        return data[coords[0]].to_numpy()
+        data = data[[coords[0]]]
+        if isel is not None and coords[0] in isel:
+            data = data.isel({coords[0]: isel[coords[0]]})
+        if sel is not None and coords[0] in sel:
+            data = data.sel({coords[0]: sel[coords[0]]})
+        return np.atleast_1d(data[coords[0]].to_numpy())
     else:
         data = data[vars]
         data.attrs = {}
@@ -40,6 +47,16 @@ def _read_nc_file(
         return data
 
 
+# parameters for the concatenation of the data from several files
+_CONCAT_PARS = dict(
+    coords="minimal",
+    data_vars="minimal",
+    compat="equals",
+    join="exact",
+    combine_attrs="drop",
+)
+
+
 class FieldDataNC(States):
     """
     Heterogeneous ambient states on a regular
@@ -184,6 +201,8 @@ class FieldDataNC(States):
         self._N = None
 
         self.__data_source = data_source
+        self.__source = data_source
+        self.__read_sel = None
         self.__inds = None
 
     @property
@@ -349,9 +368,32 @@ class FieldDataNC(States):
 
         """
 
+        # check load mode:
+        if self.load_mode not in ["preload", "lazy", "fly"]:
+            raise KeyError(
+                f"States '{self.name}': Unknown load_mode '{self.load_mode}', choices: preload, lazy, fly"
+            )
+
+        # find bounds:
+        sel = dict(self.sel)
+        if self.x_coord is not None and self.x_coord not in sel:
+            xy_min, xy_max = algo.farm.get_xy_bounds(
+                extra_space=self.bounds_extra_space, algo=algo
+            )
+            if verbosity > 0:
+                print(
+                    f"States '{self.name}': Restricting to bounds {xy_min} - {xy_max}"
+                )
+            sel.update(
+                {
+                    self.x_coord: slice(xy_min[0], xy_max[0]),
+                    self.y_coord: slice(xy_min[1], xy_max[1]),
+                }
+            )
+
         # pre-load file reading:
         coords = [self.states_coord, self.h_coord, self.y_coord, self.x_coord]
-        if not isinstance(self.data_source, xr.Dataset):
+        if self.load_mode == "fly" or sel != self.__read_sel:
 
             # check variables:
             for v in self.ovars:
@@ -368,98 +410,78 @@ class FieldDataNC(States):
                     f"States '{self.name}': Missing '{FV.WS}' or '{FV.WD}' in output variables {self.ovars}"
                 )
 
-            # check static data:
-            fpath = get_input_path(self.data_source)
-            if "*" not in str(self.data_source):
-                if not fpath.is_file():
-                    fpath = StaticData().get_file_path(
-                        STATES, fpath.name, check_raw=False
-                    )
-
-            # find bounds:
-            if self.x_coord is not None and self.x_coord not in self.sel:
-                xy_min, xy_max = algo.farm.get_xy_bounds(
-                    extra_space=self.bounds_extra_space, algo=algo
-                )
-                if verbosity > 0:
-                    print(
-                        f"States '{self.name}': Restricting to bounds {xy_min} - {xy_max}"
-                    )
-                self.sel.update(
-                    {
-                        self.x_coord: slice(xy_min[0], xy_max[0]),
-                        self.y_coord: slice(xy_min[1], xy_max[1]),
-                    }
-                )
-
             # read files:
-            if verbosity > 0:
-                if self.load_mode == "preload":
-                    print(
-                        f"States '{self.name}': Reading data from '{self.data_source}'"
-                    )
-                elif self.load_mode == "lazy":
-                    print(
-                        f"States '{self.name}': Reading header from '{self.data_source}'"
-                    )
-                else:
-                    print(
-                        f"States '{self.name}': Reading states from '{self.data_source}'"
-                    )
-            files = sorted(list(fpath.resolve().parent.glob(fpath.name)))
+            self.__read_sel = None
             vars = list(self.var2ncvar.values())
             if self.weight_ncvar is not None:
                 vars += [self.weight_ncvar]
-            self.__data_source = get_engine().map(
-                _read_nc_file,
-                files,
+            rpars = dict(
                 coords=coords,
                 vars=vars,
                 nc_engine=config.nc_engine,
                 isel=self.isel,
-                sel=self.sel,
+                sel=sel,
                 minimal=self.load_mode == "fly",
             )
+            if isinstance(self.__source, xr.Dataset):
+                if self.load_mode == "fly":
+                    raise KeyError(
+                        f"States '{self.name}': Load mode 'fly' requires file(s) as data source"
+                    )
+                data = [_read_nc_file(self.__source, **rpars)]
+
+            else:
+                # check static data:
+                fpath = get_input_path(self.__source)
+                if "*" not in str(self.__source):
+                    if not fpath.is_file():
+                        fpath = StaticData().get_file_path(
+                            STATES, fpath.name, check_raw=False
+                        )
+
+                if verbosity > 0:
+                    if self.load_mode == "preload":
+                        print(
+                            f"States '{self.name}': Reading data from '{self.__source}'"
+                        )
+                    elif self.load_mode == "lazy":
+                        print(
+                            f"States '{self.name}': Reading header from '{self.__source}'"
+                        )
+                    else:
+                        print(
+                            f"States '{self.name}': Reading states from '{self.__source}'"
+                        )
+                files = sorted(list(fpath.resolve().parent.glob(fpath.name)))
+                data = get_engine().map(_read_nc_file, files, **rpars)
 
             if self.load_mode in ["preload", "lazy"]:
 
                 if self.load_mode == "lazy":
                     try:
-                        self.__data_source = [ds.chunk() for ds in self.__data_source]
+                        data = [ds.chunk() for ds in data]
                     except (ModuleNotFoundError, ValueError) as e:
                         import_module("dask")
                         raise e
-                self.__data_source = xr.concat(
-                    self.__data_source,
-                    dim=self.states_coord,
-                    coords="minimal",
-                    data_vars="minimal",
-                    compat="equals",
-                    join="exact",
-                    combine_attrs="drop",
-                )
+                data = xr.concat(data, dim=self.states_coord, **_CONCAT_PARS)
                 if self.load_mode == "preload":
-                    self.__data_source.load()
-                self.__inds = self.__data_source[self.states_coord].to_numpy()
-                self._N = len(self.__inds)
-
-            elif self.load_mode == "fly":
-                self.__inds = self.__data_source
-                self.__data_source = fpath
-                self._files_maxi = {f: len(inds) for f, inds in zip(files, self.__inds)}
-                self.__inds = np.concatenate(self.__inds, axis=0)
-                self._N = len(self.__inds)
+                    data.load()
+                self.__data_source = data
+                self.__inds = data[self.states_coord].to_numpy()
 
             else:
-                raise KeyError(
-                    f"States '{self.name}': Unknown load_mode '{self.load_mode}', choices: preload, lazy, fly"
-                )
+                self._files_maxi = {f: len(inds) for f, inds in zip(files, data)}
+                self._fly_sel = sel
+                self.__inds = np.concatenate(data, axis=0)
 
             if self.time_format is not None:
                 self.__inds = pd.to_datetime(
                     self.__inds, format=self.time_format
                 ).to_numpy()
 
+            self._N = len(self.__inds)
+            self.__read_sel = sel
+
         # ensure WD and WS get the first two slots of data:
         self._dkys = {}
         if FV.WS in self.ovars:
@@ -538,8 +560,9 @@ class FieldDataNC(States):
 
         data_stash[self.name] = dict(
             inds=self.__inds,
+            source=self.__source,
         )
-        del self.__inds
+        del self.__inds, self.__source
 
         if self.load_mode == "preload":
             data_stash[self.name]["data_source"] = self.__data_source
@@ -576,6 +599,7 @@ class FieldDataNC(States):
 
         data = data_stash[self.name]
         self.__inds = data.pop("inds")
+        self.__source = data.pop("source")
 
         if self.load_mode == "preload":
             self.__data_source = data.pop("data_source")
@@ -686,20 +710,20 @@ class FieldDataNC(States):
             for fpath, n in self._files_maxi.items():
                 hsel = np.flatnonzero((sinds >= j0) & (sinds < j0 + n))
                 if len(hsel):
-                    isel = copy(self.isel)
-                    isel[self.states_coord] = sinds[hsel] - j0
-
-                    data.append(
-                        _read_nc_file(
-                            fpath,
-                            coords=coords,
-                            vars=vars,
-                            nc_engine=config.nc_engine,
-                            isel=isel,
-                            sel=self.sel,
-                            minimal=False,
-                        )
+                    ds = _read_nc_file(
+                        fpath,
+                        coords=coords,
+                        vars=vars,
+                        nc_engine=config.nc_engine,
+                        isel=self.isel,
+                        sel=self._fly_sel,
+                        minimal=False,
                     )
+                    if ds.sizes[self.states_coord] != n:
+                        raise ValueError(
+                            f"States '{self.name}': Found {ds.sizes[self.states_coord]} states in file '{fpath}', expecting {n}"
+                        )
+                    data.append(ds.isel({self.states_coord: sinds[hsel] - j0}))
                     order.append(hsel)
                 j0 += n
 
@@ -708,7 +732,7 @@ class FieldDataNC(States):
                 len(order) == n_states
             ), f"States '{self.name}': Missing states for load_mode '{self.load_mode}': {sinds}"
 
-            data = xr.concat(data, dim=self.states_coord)
+            data = xr.concat(data, dim=self.states_coord, **_CONCAT_PARS)
             data = data.isel({self.states_coord: np.argsort(order)})
             __, h, y, x, data, weights = self._get_data(data, coords, verbosity=0)
 
-- 
2.43.0


From 5944cf939a33c12f78a511a57eb64b2a88f0a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 28/58] fix: point calculations refuse farm results with
 another number of states

---
 foxes/algorithms/downwind/downwind.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 7e25233..412c5b5 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -798,6 +798,11 @@ class Downwind(Algorithm):
                 model_data = model_data.persist()
             self.print("\nInput data:\n\n", model_data, "\n")
             self.print(f"\nOutput farm variables:", ", ".join(self.farm_vars))
+            if model_data is not None and FC.STATE in model_data.sizes:
+                if model_data.sizes[FC.STATE] != n_states:
+                    raise ValueError(
+                        f"Found {n_states} states in farm results, but {model_data.sizes[FC.STATE]} states in input data"
+                    )
 
             # chunk farm results:
             self.print("\nInput farm data:\n\n", farm_results, "\n")
-- 
2.43.0


From 4e31fe5918ce7e2a326a6e5a7967a7d1c669980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 29/58] fix: writing a dataset to netCDF leaves its values as
 they are

---
 foxes/utils/xarray_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/xarray_utils.py b/foxes/utils/xarray_utils.py
index ccf6a88..6d72b09 100644
--- a/foxes/utils/xarray_utils.py
+++ b/foxes/utils/xarray_utils.py
@@ -30,19 +30,20 @@ def write_nc(
 
     """
     fpath = Path(fpath)
+    ds = ds.copy()
     if round is not None:
-        for v in ds.coords.keys():
+        for v in list(ds.coords.keys()):
             d = round.get(v, get_default_digits(v))
             if d is not None:
                 if verbosity > 1:
                     print(f"File {fpath.name}: Rounding {v} to {d} decimals")
-                ds[v].data = ds[v].data.round(decimals=d)
+                ds = ds.assign_coords({v: ds[v].round(decimals=d)})
         for v in ds.data_vars.keys():
             d = round.get(v, get_default_digits(v))
             if d is not None:
                 if verbosity > 1:
                     print(f"File {fpath.name}: Rounding {v} to {d} decimals")
-                ds[v].data = ds[v].data.round(decimals=d)
+                ds[v] = ds[v].round(decimals=d)
 
     enc = None
     if complevel is not None and complevel > 0:
-- 
2.43.0


From 292e46d881c406265fb53779756660d6ecad4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 30/58] fix: writing parameters of one file do not affect later
 files

---
 foxes/utils/pandas_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/utils/pandas_utils.py b/foxes/utils/pandas_utils.py
index fe375bb..321a3cd 100644
--- a/foxes/utils/pandas_utils.py
+++ b/foxes/utils/pandas_utils.py
@@ -111,7 +111,7 @@ class PandasFileHelper:
                 ).to_dataframe()
 
             if f is not None:
-                pars = deepcopy(cls.DEFAULT_READING_PARAMETERS[fmt])
+                pars = deepcopy(cls.DEFAULT_READING_PARAMETERS.get(sfx, {}))
                 pars.update(kwargs)
                 return f(file_path, **pars)
 
@@ -163,7 +163,7 @@ class PandasFileHelper:
                 f = out.to_netcdf
 
             if f is not None:
-                pars = cls.DEFAULT_WRITING_PARAMETERS[fmt]
+                pars = deepcopy(cls.DEFAULT_WRITING_PARAMETERS.get(sfx, {}))
                 pars.update(kwargs)
 
                 f(file_path, **pars)
-- 
2.43.0


From 21b0d0bd8f5950d8db199354dffd943b1742b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 31/58] fix: ResultsWriter leaves data and arguments unchanged,
 and writes renamed indices and turbine names

---
 foxes/output/results_writer.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index d532c78..fa191a9 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -55,6 +55,7 @@ class ResultsWriter(Output):
         if variables is None:
             pass
         elif isinstance(variables, dict):
+            variables = dict(variables)
             inds = {
                 s: variables.pop(s) for s in self.data.index.names if s in variables
             }
@@ -104,9 +105,14 @@ class ResultsWriter(Output):
             print(f"ResultsWriter: Writing file '{file_name}'")
 
         data, variables = self._get_data_vars(variables)
-        data.reset_index(inplace=True)
-        fc2v = kwargs.pop("format_col2var", {})
-        tix = FC.TNAME if turbine_names else FC.TURBINE
+        sname, tname = data.index.names[:2]
+        data = data.reset_index()
+        fc2v = dict(kwargs.pop("format_col2var", {}))
+        tix = tname
+        if turbine_names:
+            tix = FC.TNAME if tname == FC.TURBINE else tname
+            data[tix] = self.data[FC.TNAME].to_numpy()
+            variables = [v for v in variables if v != FC.TNAME]
 
         if state_turbine_table:
             if len(variables) != 1:
@@ -115,12 +121,10 @@ class ResultsWriter(Output):
                 )
             v = variables[0]
             cnames = {
-                t: f"{v}_T{t:04d}" if tix == FC.TURBINE else f"{v}_{t}"
+                t: f"{v}_{t}" if turbine_names else f"{v}_T{t:04d}"
                 for t in data[tix]
             }
-            for ti, (t, g) in enumerate(
-                data.reset_index().set_index(FC.STATE).groupby(tix)
-            ):
+            for ti, (t, g) in enumerate(data.set_index(sname).groupby(tix)):
                 if ti == 0:
                     odata = pd.DataFrame(
                         index=g.index.to_numpy(), columns=list(cnames.values())
@@ -128,10 +132,10 @@ class ResultsWriter(Output):
                     odata.index.name = g.index.name
                 cname = cnames[t]
                 odata[cname] = g[v].to_numpy().copy()
-                fc2v[cname] = v
+                fc2v[cname] = fc2v.get(v, v)
             data = odata
         else:
-            data.set_index([FC.STATE, tix], inplace=True)
+            data.set_index([sname, tix], inplace=True)
 
         super().write(file_name, data, format_col2var=fc2v, **kwargs)
 
@@ -167,17 +171,17 @@ class ResultsWriter(Output):
         states = data.index.get_level_values(0).unique()
         n_states = len(states)
         n_turbines = len(data.index.get_level_values(1).unique())
+        sname, tname = data.index.names[:2]
 
-        crds = {FC.STATE: states}
+        crds = {sname: states}
         if turbine_names:
-            idx = pd.IndexSlice
-            crds[FC.TURBINE] = self.data.loc[idx[0, :], FC.TNAME].to_numpy()
+            crds[tname] = self.data[FC.TNAME].to_numpy()[:n_turbines]
 
         ds = Dataset(
             coords=crds,
             data_vars={
                 v: (
-                    (FC.STATE, FC.TURBINE),
+                    (sname, tname),
                     data[v].to_numpy().reshape(n_states, n_turbines),
                 )
                 for v in variables
-- 
2.43.0


From 5b21ed7577b47af5a5532ac39fd8ff88ccf02e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 32/58] fix: point means and tables handle weights that only
 depend on the state

---
 foxes/output/calc_points.py         | 14 +++++++++-----
 foxes/output/state_turbine_table.py |  5 ++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/foxes/output/calc_points.py b/foxes/output/calc_points.py
index d7bff65..ab9f2c5 100644
--- a/foxes/output/calc_points.py
+++ b/foxes/output/calc_points.py
@@ -101,11 +101,17 @@ class PointCalculator(Output):
         pres = self.algo.calc_points(self.farm_results, pts, *args, **kwargs)
 
         if states_mean:
-            weights = self.farm_results[FV.WEIGHT].to_numpy()[:, weight_turbine]
+            weights = self.farm_results[FV.WEIGHT].to_numpy()
+            if self.farm_results[FV.WEIGHT].dims == (FC.STATE, FC.TURBINE):
+                weights = weights[:, weight_turbine]
             pres = Dataset(
                 data_vars={
-                    v: np.einsum("s,sp->p", weights, pres[v].to_numpy())
+                    v: (
+                        (FC.POINT,),
+                        np.einsum("s,sp->p", weights, pres[v].to_numpy()),
+                    )
                     for v in pres.data_vars.keys()
+                    if pres[v].dims == (FC.STATE, FC.POINT)
                 }
             )
 
@@ -134,9 +140,7 @@ class PointCalculator(Output):
                         "y": ((FC.POINT,), points[..., 1]),
                         "z": ((FC.POINT,), points[..., 2]),
                     }
-                dvars.update(
-                    {v: ((FC.STATE, FC.POINT), pres[v].to_numpy()) for v in vrs}
-                )
+                dvars.update({v: (pres[v].dims, pres[v].to_numpy()) for v in vrs})
                 ds = Dataset(
                     coords={FC.STATE: pres[FC.STATE].to_numpy()}, data_vars=dvars
                 )
diff --git a/foxes/output/state_turbine_table.py b/foxes/output/state_turbine_table.py
index 082fce3..54a34e7 100644
--- a/foxes/output/state_turbine_table.py
+++ b/foxes/output/state_turbine_table.py
@@ -76,7 +76,10 @@ class StateTurbineTable(Output):
                 turbine: self.farm_results[FC.TURBINE].to_numpy(),
             },
             data_vars={
-                name_map.get(v, v): ((state, turbine), self.farm_results[v].to_numpy())
+                name_map.get(v, v): (
+                    [name_map.get(d, d) for d in self.farm_results[v].dims],
+                    self.farm_results[v].to_numpy(),
+                )
                 for v in variables
             },
         )
-- 
2.43.0


From e0deaae73dfbbf3b68bc54a238b29e780c74caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 33/58] fix: xyh layout files are written to the output folder

---
 foxes/output/farm_layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/output/farm_layout.py b/foxes/output/farm_layout.py
index afdae5f..56ba27c 100644
--- a/foxes/output/farm_layout.py
+++ b/foxes/output/farm_layout.py
@@ -341,7 +341,8 @@ class FarmLayoutOutput(Output):
         data = self.get_layout_data()
 
         fname = file_path if file_path is not None else self.farm.name + ".xyh"
-        np.savetxt(fname, data, header="x y h")
+        fpath = self.get_fpath(fname)
+        np.savetxt(fpath, data, header="x y h")
 
     def write_csv(self, file_name=None, type_col=None, algo=None):
         """
-- 
2.43.0


From 5c98b637315c8d633cdc4d7b2833f864d08db71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:13 +0000
Subject: [PATCH 34/58] fix: running from a dict finalizes its engine after
 failures and leaves the dict unchanged

---
 foxes/input/yaml/dict.py | 98 ++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 70f9379..2b3ce6d 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -7,7 +7,7 @@ from foxes.core import States, Engine, WindFarm, Algorithm
 from foxes.models import ModelBook
 from foxes.output import Output
 from foxes.utils import Dict, new_cls
-from foxes.config import config
+from foxes.config import config, get_input_path
 import foxes.constants as FC
 
 
@@ -128,6 +128,7 @@ def read_dict(
         if algo is None:
             _print("Creating wind farm")
             fdict = idict.get_item("wind_farm")
+            fdict = Dict(fdict, name=fdict.name)
             lyts = [
                 Dict(l, name=f"{fdict.name}.layout{i}")
                 for i, l in enumerate(fdict.pop_item("layouts"))
@@ -152,24 +153,31 @@ def read_dict(
         _print(f"Initializing engine: {engine}")
         engine.initialize()
     elif "engine" in idict:
+        edict = dict(idict["engine"])
         if verbosity is not None:
-            idict["verbosity"] = verbosity - 1
-        engine = Engine.new(**idict["engine"])
+            edict["verbosity"] = verbosity - 1
+        engine = Engine.new(**edict)
         engine.initialize()
         _print(f"Initializing engine: {engine}")
 
     # create algorithm:
     if algo is None:
-        adict = idict.get_item("algorithm")
-        if iterative is not None and iterative:
-            adict["algo_type"] = "Iterative"
-        _print("Creating algorithm :", adict["algo_type"])
-        adict.update(dict(farm=farm, states=states, mbook=mbook))
-        if verbosity is not None:
-            adict["verbosity"] = verbosity - 1
-        if algo_pars is not None:
-            adict.update({v: d for v, d in algo_pars.items() if d is not None})
-        algo = Algorithm.new(**adict)
+        try:
+            adict = idict.get_item("algorithm")
+            adict = Dict(adict, name=adict.name)
+            if iterative is not None and iterative:
+                adict["algo_type"] = "Iterative"
+            _print("Creating algorithm :", adict["algo_type"])
+            adict.update(dict(farm=farm, states=states, mbook=mbook))
+            if verbosity is not None:
+                adict["verbosity"] = verbosity - 1
+            if algo_pars is not None:
+                adict.update({v: d for v, d in algo_pars.items() if d is not None})
+            algo = Algorithm.new(**adict)
+        except BaseException:
+            if engine is not None:
+                engine.finalize()
+            raise
 
     _print("------------------------------------------------------------------------\n")
 
@@ -302,7 +310,7 @@ def run_obj_function(
 
     # replace result labels by objects:
     for k, d in fdict.items():
-        if isinstance(d, str) and d[0] == "$":
+        if isinstance(d, str) and d.startswith("$"):
             fdict[k] = _get_object(rlabels, d)
 
     # run function:
@@ -438,7 +446,7 @@ def run_outputs(
         if len(odicts):
             _print()
 
-    return out if not ret_rlabels else out, rlabels
+    return (out, rlabels) if ret_rlabels else out
 
 
 def run_dict(idict, *args, verbosity=None, **kwargs):
@@ -479,36 +487,40 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
     # read components:
     algo, engine = read_dict(idict, *args, verbosity=verbosity, **kwargs)
 
-    # run farm calculation:
-    rdict = idict.get_item("calc_farm", Dict(name=idict.name + ".calc_farm"))
-    if rdict.pop_item("run", True):
-        _print("Running calc_farm")
-        farm_results = algo.calc_farm(**rdict)
-    else:
-        farm_results = None
-    out = (farm_results,)
-
-    # run points calculation:
-    point_results = None
-    if "calc_points" in idict:
-        rdict = idict.get_item("calc_points")
-        if rdict.pop_item("run"):
-            _print("Running calc_points")
-            points = rdict.pop_item("points")
-            if isinstance(points, str):
-                _print("Reading file", points)
-                points = pd.read_csv(points).to_numpy()
-            point_results = algo.calc_points(farm_results, points=points, **rdict)
+    try:
+        # run farm calculation:
+        rdict = idict.get_item("calc_farm", Dict(name=idict.name + ".calc_farm"))
+        rdict = Dict(rdict, name=rdict.name)
+        if rdict.pop_item("run", True):
+            _print("Running calc_farm")
+            farm_results = algo.calc_farm(**rdict)
         else:
-            point_results = None
-        out += (point_results,)
+            farm_results = None
+        out = (farm_results,)
+
+        # run points calculation:
+        point_results = None
+        if "calc_points" in idict:
+            rdict = idict.get_item("calc_points")
+            rdict = Dict(rdict, name=rdict.name)
+            if rdict.pop_item("run"):
+                _print("Running calc_points")
+                points = rdict.pop_item("points")
+                if isinstance(points, str):
+                    _print("Reading file", points)
+                    points = pd.read_csv(get_input_path(points)).to_numpy()
+                point_results = algo.calc_points(farm_results, points=points, **rdict)
+            else:
+                point_results = None
+            out += (point_results,)
 
-    # run outputs:
-    out += (run_outputs(idict, algo, farm_results, point_results, verbosity=verbosity),)
+        # run outputs:
+        out += (run_outputs(idict, algo, farm_results, point_results, verbosity=verbosity),)
 
-    # shutdown engine, if created above:
-    if engine is not None:
-        _print(f"Finalizing engine: {engine}")
-        engine.finalize()
+    finally:
+        # shutdown engine, if created above:
+        if engine is not None:
+            _print(f"Finalizing engine: {engine}")
+            engine.finalize()
 
     return out
-- 
2.43.0


From d7aa22a67a61427ed11f8638c02e9777e1fa2016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 35/58] fix: failing grid calculations leave the algorithm's
 verbosity as it was

---
 foxes/output/grids.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index b9766b5..7c9cc36 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -39,9 +39,11 @@ def calc_point_results(
     if averb is not None:
         algo.verbosity = verbosity
     fres = farm_results if seq_iter is None else seq_iter.farm_results
-    point_results = algo.calc_points(fres, points=g_pts, **kwargs)
-    if averb is not None:
-        algo.verbosity = averb
+    try:
+        point_results = algo.calc_points(fres, points=g_pts, **kwargs)
+    finally:
+        if averb is not None:
+            algo.verbosity = averb
 
     return point_results
 
-- 
2.43.0


From 1d18b6af52a94aa1108097feb8a8cbfc7a5acbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 36/58] fix: slice data for all variables does not include the
 states weights

---
 foxes/output/slice_data.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index a4c87f9..cf1027f 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -140,9 +140,11 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
-        else:
-            point_results.drop_vars(variables)
+            variables = [
+                v
+                for v, d in point_results.data_vars.items()
+                if v != FV.WEIGHT and d.dims == (FC.STATE, FC.POINT)
+            ]
         del g_pts
 
         # take mean over states:
@@ -657,9 +659,11 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
-        else:
-            point_results.drop_vars(variables)
+            variables = [
+                v
+                for v, d in point_results.data_vars.items()
+                if v != FV.WEIGHT and d.dims == (FC.STATE, FC.POINT)
+            ]
         del g_pts
 
         # convert to numpy:
-- 
2.43.0


From 16a7c5226ce2b27da98c96c18ce79962603eb28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 37/58] fix: slice data can be written to csv with verbosity

---
 foxes/output/slice_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index cf1027f..27cd847 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -96,7 +96,7 @@ class SliceData(Output):
 
             elif format == "pandas":
                 if verbosity > 0:
-                    print("Writing file", fpath)
+                    print("Writing file", self.get_fpath(fname))
                 self.write(fname, data, **write_pars)
 
             elif format == "xarray":
-- 
2.43.0


From 0c68b7c48624d0c26595d84b6e70133f248d6832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:09 +0000
Subject: [PATCH 38/58] fix: mean flow plots return the data of the plotted
 variable

---
 foxes/output/flow_plots_2d/flow_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 4937007..63bcdf1 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -156,7 +156,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -306,7 +306,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -457,7 +457,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
-- 
2.43.0


From efba601d16285847714f9a75f911760abfee98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:09 +0000
Subject: [PATCH 39/58] fix: mean slice data over selected states is normalized
 by their weights

---
 foxes/output/slice_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index 27cd847..a440074 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -149,6 +149,8 @@ class SliceData(Output):
 
         # take mean over states:
         weights = point_results[FV.WEIGHT].to_numpy()
+        if len(states) < self.fres.sizes[FC.STATE]:
+            weights = weights / np.sum(weights, axis=0, keepdims=True)
         if point_results[FV.WEIGHT].dims == (FC.STATE,):
             data = {
                 v: np.einsum("s,sp->p", weights, point_results[v].to_numpy())
-- 
2.43.0


From 32682f6112d16cfb945bc25b5fc35f836d967c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:09 +0000
Subject: [PATCH 40/58] fix: slice data applies the label map to the variables
 in all formats

---
 foxes/output/grids.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index 7c9cc36..354d188 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -565,6 +565,7 @@ def np2pd_p(data, a_pos, b_pos, ori, label_map={}):
     n_a = len(a_pos)
     n_b = len(b_pos)
     minds = pd.MultiIndex.from_product([range(n_a), range(n_b)], names=[a, b])
+    data = {label_map.get(v, v): d for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
 
@@ -603,6 +604,7 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     minds = pd.MultiIndex.from_product(
         [states, range(n_a), range(n_b)], names=[s, a, b]
     )
+    data = {label_map.get(v, v): d.reshape(-1) for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
 
@@ -640,7 +642,8 @@ def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
     return Dataset(
         coords={b: b_pos, a: a_pos},
         data_vars={
-            v: ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1)) for v, d in data.items()
+            label_map.get(v, v): ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1))
+            for v, d in data.items()
         },
         attrs={c: float(c_pos)},
     )
-- 
2.43.0


From 3700e1b81b00e5bf04bf2d9a9122cac8d7b6f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:09 +0000
Subject: [PATCH 41/58] fix: flow plots of selected states show the rotors of
 these states

---
 foxes/output/flow_plots_2d/flow_plots.py | 52 ++++++++++++++----------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 63bcdf1..f8576da 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from foxes.output import SliceData
 import foxes.variables as FV
+import foxes.constants as FC
 
 from .get_fig import get_fig
 
@@ -14,6 +15,12 @@ class FlowPlots2D(SliceData):
 
     """
 
+    def _get_states_fres(self, states):
+        """Helper function that gets the farm results of the plotted states"""
+        if len(states) == self.fres.sizes[FC.STATE]:
+            return self.fres
+        return self.fres.sel({FC.STATE: states})
+
     def get_mean_fig_xy(
         self,
         var,
@@ -601,18 +608,19 @@ class FlowPlots2D(SliceData):
 
             # get data for show_turbines
             if rotor_color is not None:
+                fres = self._get_states_fres(states)
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD][si] + fres[FV.YAWM][si]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD][si]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D][si],
+                    "H": fres[FV.H][si],
+                    "X": fres[FV.X][si],
+                    "Y": fres[FV.Y][si],
+                    "AMB_WD": fres[FV.AMB_WD][si],
                     "turb_angle": turb_angle,
                 }
             else:
@@ -787,18 +795,19 @@ class FlowPlots2D(SliceData):
 
             # get data for show_turbines
             if rotor_color is not None:
+                fres = self._get_states_fres(states)
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD][si] + fres[FV.YAWM][si]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD][si]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D][si],
+                    "H": fres[FV.H][si],
+                    "X": fres[FV.X][si],
+                    "Y": fres[FV.Y][si],
+                    "AMB_WD": fres[FV.AMB_WD][si],
                     "turb_angle": turb_angle,
                 }
             else:
@@ -973,18 +982,19 @@ class FlowPlots2D(SliceData):
 
             # get data for show_turbines
             if rotor_color is not None:
+                fres = self._get_states_fres(states)
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD][si] + fres[FV.YAWM][si]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD][si]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D][si],
+                    "H": fres[FV.H][si],
+                    "X": fres[FV.X][si],
+                    "Y": fres[FV.Y][si],
+                    "AMB_WD": fres[FV.AMB_WD][si],
                     "turb_angle": turb_angle,
                 }
             else:
-- 
2.43.0


From 60caef88d35480e5663f1f266ecedd05b6f3fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:57 +0000
Subject: [PATCH 42/58] fix: sector management applies to its turbines also
 when they are in downwind order

---
 foxes/models/turbine_models/sector_management.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 34be87c..a1772ac 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -3,7 +3,7 @@ import pandas as pd
 
 from foxes.core import TurbineModel
 from foxes.utils import PandasFileHelper
-from foxes.config import get_input_path
+from foxes.config import config, get_input_path
 import foxes.variables as FV
 import foxes.constants as FC
 
@@ -191,17 +191,17 @@ class SectorManagement(TurbineModel):
         """
         # prepare:
         n_trbs = len(self._trbs)
-        if n_trbs == fdata.n_turbines and np.all(
-            self._trbs == np.arange(fdata.n_turbines)
-        ):
-            tsel = np.s_[:]
+        ssel = np.arange(fdata.n_states)[:, None]
+        if self.pre_rotor:
+            tsel = np.repeat(self._trbs[None, :], fdata.n_states, axis=0)
         else:
-            tsel = self._trbs
+            # find the turbines in downwind order:
+            tsel = fdata[FV.ORDER_INV].astype(config.dtype_int)[:, self._trbs]
 
         # find state-turbine data that matches ranges:
         rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
         for vi, v in enumerate(self._rvars):
-            d = fdata[v][:, tsel]
+            d = fdata[v][ssel, tsel]
             if v in self._perds:
                 d = np.mod(d, self._perds[v])
                 mi = self._rdata[:, vi, 0]
@@ -227,7 +227,7 @@ class SectorManagement(TurbineModel):
         # set target data:
         if np.any(rsel):
             sel = np.where(rsel)
-            selt = self._trbs[sel[1]]
+            selt = tsel[sel]
             for vi, v in enumerate(self._tvars):
                 fdata[v][sel[0], selt] = self._tdata[None, sel[1], vi]
 
-- 
2.43.0


From 95164b8b7c3a76c19e1316e40ff5d2f9d61af9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 43/58] fix: streamlines start with the wind direction of the
 states, also when the turbine order is calculated

---
 foxes/models/wake_frames/streamlines.py | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index bd911e0..98b019d 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -71,7 +71,6 @@ class Streamlines2D(WakeFrame):
             # set streamline start point data (rotor centre):
             if i == 0:
                 data[:, :, i, :3] = fdata[FV.TXYH]
-                data[:, :, i, 3] = fdata[FV.AMB_WD]
 
             # compute next step:
             else:
@@ -82,22 +81,23 @@ class Streamlines2D(WakeFrame):
                 data[:, :, i, :2] = xyz[:, :, :2] + self.step * n
                 data[:, :, i, 2] = xyz[:, :, 2]
 
-                # calculate next tangential vector:
-                svars = algo.states.output_point_vars(algo)
-                tdata = TData.from_points(
-                    data[:, :, i, :3],
-                    data={
-                        v: np.full(
-                            (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
-                        )
-                        for v in svars
-                    },
-                    dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
-                )
-                data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[
-                    FV.WD
-                ][:, :, 0]
+            # calculate tangential vector:
+            svars = algo.states.output_point_vars(algo)
+            tdata = TData.from_points(
+                data[:, :, i, :3],
+                data={
+                    v: np.full(
+                        (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
+                    )
+                    for v in svars
+                },
+                dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
+            )
+            data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[FV.WD][
+                :, :, 0
+            ]
 
+            if i > 0:
                 sel = np.isnan(data[:, :, i, 3])
                 if np.any(sel):
                     data[sel, i, 3] = data[sel, i - 1, 3]
-- 
2.43.0


From 11269c5b38f56289224041944a3382dd7e279d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:13 +0000
Subject: [PATCH 44/58] fix: streamlines order turbines such that those
 upstream come first

---
 foxes/models/wake_frames/streamlines.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index 98b019d..19ff9af 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -202,11 +202,19 @@ class Streamlines2D(WakeFrame):
                 :, :, 0, 0
             ]
 
-        # derive turbine order:
-        # TODO: Remove loop over states
+        # count the turbines upstream of each turbine:
+        sts = np.arange(n_states)
+        downstream = coosx > 0
+        n_upstream = np.sum(downstream, axis=1)
+
+        # derive turbine order, picking turbines with least upstream turbines
+        # out of those that have not been ordered yet:
         order = np.zeros((n_states, n_turbines), dtype=config.dtype_int)
-        for si in range(n_states):
-            order[si] = np.lexsort(keys=coosx[si])
+        for oi in range(n_turbines):
+            ti = np.argmin(n_upstream, axis=1)
+            order[:, oi] = ti
+            n_upstream -= downstream[sts, ti]
+            n_upstream[sts, ti] = n_turbines**2
 
         return order
 
-- 
2.43.0


From b8e974e5a195feaf0fdc2d92be24f1187a9edd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 45/58] fix: explicit wake growth parameters are not replaced
 by those of turbines with dynamic wakes

---
 foxes/core/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index fa19e2a..79a500e 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -493,9 +493,10 @@ class Model(ABC):
                 )
             return out
 
-        # data from other chunks, only with iterations:
+        # farm data from other chunks, only with iterations:
         if (
-            target in [FC.STATE_TARGET, FC.STATE_TARGET_TPOINT]
+            s in ["f", "w"]
+            and target in [FC.STATE_TARGET, FC.STATE_TARGET_TPOINT]
             and fdata is not None
             and variable in fdata
             and tdata is not None
-- 
2.43.0


From c9f2fa3c7eec56491b164972eb284de6c83a8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:17 +0000
Subject: [PATCH 46/58] fix: stepping through states uses the turbine positions
 of the current state

Sequential runs each state as a chunk that starts at zero, so turbines with
state dependent positions stayed at those of the first state.
---
 foxes/algorithms/downwind/models/init_farm_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 7414210..14c85ef 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -90,7 +90,9 @@ class InitFarmData(FarmDataModel):
             if len(t.xy.shape) == 1:
                 fdata[FV.TXYH][:, ti, :2] = t.xy[None, :]
             else:
+                # algorithms that step through states start their chunks at zero
                 i0 = fdata.states_i0(counter=True)
+                i0 += getattr(algo, "counter", None) or 0
                 s = np.s_[i0 : i0 + fdata.n_states]
                 fdata[FV.TXYH][:, ti, :2] = t.xy[s]
 
-- 
2.43.0


From f79ac5e531d67a0aa31c21f2a5c7b5023a0b3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:33 +0000
Subject: [PATCH 47/58] fix: missing field data is interpolated for each state
 separately

The interpolation continued across states, hence the results depended on the
states that were in the same chunk.
---
 foxes/input/states/field_data_nc.py | 34 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 6c5831d..f8eebd7 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -772,25 +772,23 @@ class FieldDataNC(States):
             if c is None:
                 pts[..., i] = g[0]
 
-        # interpolate nan values:
+        # interpolate nan values, separately for each state:
         if self.interp_nans and np.any(np.isnan(data)):
-            df = pd.DataFrame(
-                index=pd.MultiIndex.from_product(
-                    gvars, names=["state", "height", "y", "x"]
-                ),
-                data={
-                    v: data[..., vi].reshape(n_states * n_h * n_y * n_x)
-                    for v, vi in self._dkys.items()
-                },
-            )
-            df.interpolate(
-                axis=0, method="linear", limit_direction="forward", inplace=True
-            )
-            df.interpolate(
-                axis=0, method="linear", limit_direction="backward", inplace=True
-            )
-            data = df.to_numpy().reshape(n_states, n_h, n_y, n_x, self._n_dvars)
-            del df
+            for si in range(n_states):
+                df = pd.DataFrame(
+                    data={
+                        v: data[si, ..., vi].reshape(n_h * n_y * n_x)
+                        for v, vi in self._dkys.items()
+                    },
+                )
+                df.interpolate(
+                    axis=0, method="linear", limit_direction="forward", inplace=True
+                )
+                df.interpolate(
+                    axis=0, method="linear", limit_direction="backward", inplace=True
+                )
+                data[si] = df.to_numpy().reshape(n_h, n_y, n_x, self._n_dvars)
+                del df
 
         # interpolate:
         try:
-- 
2.43.0


From cebf82dd1f030906092713676ec0f2ac71821c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:56 +0000
Subject: [PATCH 48/58] fix: power masks compare with the rated power of their
 turbine

The rated power was in the order of the wind farm, the farm data is in
downwind order.
---
 foxes/models/turbine_models/power_mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 6e3b53e..e058971 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -153,7 +153,7 @@ class PowerMask(TurbineModel):
         # prepare:
         P = fdata[FV.P]
         max_P = fdata[FV.MAX_P]
-        P_rated = self._P_rated[None, :]
+        P_rated = self._P_rated[fdata[FV.ORDER].astype(config.dtype_int)]
 
         # select power entries for which this is active:
         sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
-- 
2.43.0


From 7c1adc0a6424eba7dfd3bc1c4df5e70dbcb30bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 49/58] fix: states selections of turbines belong to the given
 turbine models

Models are split into pre-rotor and post-rotor models, the selections were
then looked up by the index in these lists.
---
 foxes/core/farm_controller.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index eaba616..7de2d12 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -117,7 +117,7 @@ class FarmController(FarmDataModel):
                 return True
         return False
 
-    def _analyze_models(self, algo, pre_rotor, models):
+    def _analyze_models(self, algo, pre_rotor, models, states_sels):
         """
         Helper function for model analysis
         """
@@ -151,7 +151,7 @@ class FarmController(FarmDataModel):
                         for tj, jnames in enumerate(mnames):
                             mi = tmis[tj]
                             if mi < len(jnames) and jnames[mi] == mname:
-                                ssel = algo.farm.turbines[tj].mstates_sel[mi]
+                                ssel = states_sels[tj][mi]
                                 tsel[:, tj] = True if ssel is None else ssel
                                 tmis[tj] += 1
                         tmsels.append(tsel)
@@ -227,6 +227,8 @@ class FarmController(FarmDataModel):
         # check turbine models, and find turbine types and pre/post-rotor models:
         prer_models = [[] for t in algo.farm.turbines]
         postr_models = [[] for t in algo.farm.turbines]
+        prer_sels = [[] for t in algo.farm.turbines]
+        postr_sels = [[] for t in algo.farm.turbines]
         ttypes = {m.name: m for m in self.turbine_types}
         for ti, t in enumerate(algo.farm.turbines):
             prer = None
@@ -257,15 +259,17 @@ class FarmController(FarmDataModel):
                         )
                     if m.pre_rotor:
                         prer_models[ti].append(m)
+                        prer_sels[ti].append(t.mstates_sel[mi])
                     else:
                         postr_models[ti].append(m)
+                        postr_sels[ti].append(t.mstates_sel[mi])
 
         # analyze models:
         mnames_pre, tmsels_pre = self._analyze_models(
-            algo, pre_rotor=True, models=prer_models
+            algo, pre_rotor=True, models=prer_models, states_sels=prer_sels
         )
         mnames_post, tmsels_post = self._analyze_models(
-            algo, pre_rotor=False, models=postr_models
+            algo, pre_rotor=False, models=postr_models, states_sels=postr_sels
         )
         tmsels = tmsels_pre + tmsels_post
         self._tmall = [np.all(t) for t in tmsels]
-- 
2.43.0


From a21421d8af0a5f8381315ba8728b5d28162c9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 50/58] fix: sector management follows the selection of states
 and turbines

---
 foxes/models/turbine_models/sector_management.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index a1772ac..9f6e005 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -199,7 +199,9 @@ class SectorManagement(TurbineModel):
             tsel = fdata[FV.ORDER_INV].astype(config.dtype_int)[:, self._trbs]
 
         # find state-turbine data that matches ranges:
-        rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
+        asel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        asel[st_sel] = True
+        rsel = asel[ssel, tsel]
         for vi, v in enumerate(self._rvars):
             d = fdata[v][ssel, tsel]
             if v in self._perds:
-- 
2.43.0


From 4418a0f26c56d4f7dfeb4d3c7d1e90c573cbf8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:50 +0000
Subject: [PATCH 51/58] fix: random layouts and time series follow their seed,
 including 0, and leave other random numbers alone

---
 foxes/input/states/create/random_timeseries.py | 5 ++---
 foxes/utils/random_xy.py                       | 7 +++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/foxes/input/states/create/random_timeseries.py b/foxes/input/states/create/random_timeseries.py
index 10b8c9c..2402569 100644
--- a/foxes/input/states/create/random_timeseries.py
+++ b/foxes/input/states/create/random_timeseries.py
@@ -39,8 +39,7 @@ def random_timseries_data(
     :group: input.states.create
 
     """
-    if seed:
-        np.random.seed(seed)
+    rng = np.random if seed is None else np.random.RandomState(seed)
 
     dranges = {FV.WS: (0.0, 30.0), FV.WD: (0.0, 360.0)}
     if data_ranges:
@@ -50,7 +49,7 @@ def random_timseries_data(
     times = times.astype(str).astype("datetime64[ns]")
     sdata = pd.DataFrame(
         index=times,
-        data={v: np.random.uniform(d[0], d[1], n_times) for v, d in dranges.items()},
+        data={v: rng.uniform(d[0], d[1], n_times) for v, d in dranges.items()},
     )
     sdata.index.name = iname
     return sdata
diff --git a/foxes/utils/random_xy.py b/foxes/utils/random_xy.py
index 18d97e8..57f60db 100644
--- a/foxes/utils/random_xy.py
+++ b/foxes/utils/random_xy.py
@@ -38,11 +38,10 @@ def random_xy_square(
     :group: utils
 
     """
-    if seed:
-        np.random.seed(seed)
+    rng = np.random if seed is None else np.random.RandomState(seed)
 
     xmax = np.sqrt(n) * min_dist if xmax_ini is None else xmax_ini
-    xy = np.random.uniform(0, xmax, (n, 2))
+    xy = rng.uniform(0, xmax, (n, 2))
     while True:
         dists = cdist(xy, xy)
         np.fill_diagonal(dists, np.inf)
@@ -52,5 +51,5 @@ def random_xy_square(
         if verbosity > 0:
             print(f"Re-generating coordinates: {len(sel)}, xmax = {xmax:.1f}")
         xmax *= growth
-        xy[sel] = np.random.uniform(0, xmax, (len(sel), 2))
+        xy[sel] = rng.uniform(0, xmax, (len(sel), 2))
     return xy - np.mean(xy, axis=0)[None, :]
-- 
2.43.0


From 870a805f0c9eea80fbc7e92720ce3182322f433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:50 +0000
Subject: [PATCH 52/58] fix: stability states are written with the given number
 of digits

---
 foxes/input/states/create/random_abl_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/create/random_abl_states.py b/foxes/input/states/create/random_abl_states.py
index 81f3381..0b50ced 100644
--- a/foxes/input/states/create/random_abl_states.py
+++ b/foxes/input/states/create/random_abl_states.py
@@ -125,7 +125,7 @@ def write_random_abl_states(
         if isinstance(digits, str) and digits == "auto":
             digits = hdigits
         else:
-            digits = hdigits
+            digits = {c: None if c == wcol else digits for c in cols_minmax.keys()}
 
     if digits is not None:
         for v, d in digits.items():
-- 
2.43.0


From a60fc923bacdd33583a4278fe74b1a5295c50941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:50 +0000
Subject: [PATCH 53/58] fix: turbines do not share their lists of models

---
 foxes/core/turbine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/foxes/core/turbine.py b/foxes/core/turbine.py
index b1ad99a..419b2cf 100644
--- a/foxes/core/turbine.py
+++ b/foxes/core/turbine.py
@@ -71,13 +71,14 @@ class Turbine:
         self.index = index
         self.name = name
         self.xy = np.array(xy)
-        self.models = turbine_models
+        self.models = list(turbine_models)
         self.D = D
         self.H = H
 
-        self.mstates_sel = models_state_sel
-        if self.mstates_sel is None:
+        if models_state_sel is None:
             self.mstates_sel = [None] * len(self.models)
+        else:
+            self.mstates_sel = list(models_state_sel)
 
     def add_model(self, model, states_sel=None):
         """
-- 
2.43.0


From 8149e5c3f71235593d7ccb096ae377ff4747cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:40 +0000
Subject: [PATCH 54/58] fix: centrelines of timelines follow the wakes and do
 not depend on the chunks

---
 foxes/models/wake_frames/timelines.py | 32 ++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index f6605d7..8637e20 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -469,36 +469,38 @@ class Timelines(WakeFrame):
         trace_dp = np.zeros_like(points[..., :2])
         trace_l = x.copy()
         trace_si = np.zeros((n_states, n_points), dtype=config.dtype_int)
-        trace_si[:] = np.arange(n_states)[:, None]
+        trace_si[:] = mdata.states_i0(counter=True) + np.arange(n_states)[:, None]
 
         for hi, h in enumerate(heights):
             precond = theights == h
             if np.any(precond):
-                sel = precond[:, None] & (trace_l > 0)
+
+                # step backwards in time, as long as this reduces the distance to x:
+                sel = precond[:, None] & (trace_l > 0) & (trace_si > 0)
                 while np.any(sel):
-                    dxy = data_dxy[hi][trace_si[sel]]
+                    dxy = data_dxy[hi][trace_si[sel] - 1]
 
                     trl = trace_l[sel]
-                    trp = trace_dp[sel]
                     dl = np.linalg.norm(dxy, axis=-1)
                     cl = np.abs(trl - dl) < np.abs(trl)
-                    if np.any(cl):
-                        trace_l[sel] = np.where(cl, trl - dl, trl)
-                        trace_dp[sel] = np.where(cl[:, None], trp + dxy, trp)
-                    del trl, trp, dl, cl, dxy
+                    trace_l[sel] = np.where(cl, trl - dl, trl)
+                    trace_dp[sel] += np.where(cl[:, None], dxy, 0.0)
+                    trace_si[sel] -= np.where(cl, 1, 0)
 
-                    trace_si[sel] -= 1
-                    sel = precond[:, None] & (trace_l > 0) & (trace_si >= 0)
+                    sel[sel] = cl
+                    sel &= (trace_l > 0) & (trace_si > 0)
+                    del trl, dl, cl, dxy
 
-                si = trace_si[precond] + 1
-                dxy = data_dxy[hi][si]
+                # move by the remaining distance:
+                dxy = data_dxy[hi][trace_si[precond]]
                 dl = np.linalg.norm(dxy, axis=-1)[:, :, None]
                 trl = trace_l[precond][:, :, None]
                 trp = trace_dp[precond]
-                sel = np.abs(trl) < 2 * dl
-                trace_dp[precond] = np.where(sel, trp - trl / dl * dxy, np.nan)
+                trace_dp[precond] = np.where(
+                    np.abs(trl) < 2 * dl, trp + trl / dl * dxy, np.nan
+                )
 
-                del si, dxy, dl, trl, trp, sel
+                del dxy, dl, trl, trp, sel
             del precond
         del trace_si, trace_l
 
-- 
2.43.0


From 79226e14d7ee69ee59c1f56ac4fa564019936b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:22 +0000
Subject: [PATCH 55/58] fix: SetUniformData: call the base constructor, dict
 data and state dependent data

---
 foxes/models/point_models/set_uniform_data.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/foxes/models/point_models/set_uniform_data.py b/foxes/models/point_models/set_uniform_data.py
index f371ebd..0eb371f 100644
--- a/foxes/models/point_models/set_uniform_data.py
+++ b/foxes/models/point_models/set_uniform_data.py
@@ -49,6 +49,7 @@ class SetUniformData(PointDataModel):
             pandas file reading parameters
 
         """
+        super().__init__()
         self.data_source = data_source
         self.ovars = output_vars
         self.var2col = var2col
@@ -86,7 +87,7 @@ class SetUniformData(PointDataModel):
                 [self.var2col.get(v, v) for v in self.ovars]
             ].to_numpy(config.dtype_double)
         elif isinstance(self.data_source, dict):
-            pass
+            data = None
         else:
             if verbosity:
                 print(f"States '{self.name}': Reading file {self.data_source}")
@@ -98,8 +99,9 @@ class SetUniformData(PointDataModel):
             )
 
         idata = super().load_data(algo, verbosity)
-        idata["coords"][self.VARS] = self.ovars
-        idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
+        if data is not None:
+            idata["coords"][self.VARS] = self.ovars
+            idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
 
         return idata
 
@@ -145,9 +147,9 @@ class SetUniformData(PointDataModel):
             Values: numpy.ndarray with shape (n_states, n_points)
 
         """
-        for v in self.ovars:
+        for i, v in enumerate(self.ovars):
             if self.DATA in mdata:
-                pdata[v][:] = mdata[v][None, self.ovars.index(v)]
+                pdata[v][:] = mdata[self.DATA][:, None, None, i]
             else:
                 pdata[v][:] = self.data_source[v]
 
-- 
2.43.0


From 83e90de572f51817d9a4dbc8c02f7edad7ba9112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:22 +0000
Subject: [PATCH 56/58] fix: WakeDeltas: normalise the delta variables

---
 foxes/models/point_models/wake_deltas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/point_models/wake_deltas.py b/foxes/models/point_models/wake_deltas.py
index 551df49..c958b31 100644
--- a/foxes/models/point_models/wake_deltas.py
+++ b/foxes/models/point_models/wake_deltas.py
@@ -81,6 +81,6 @@ class WakeDeltas(PointDataModel):
 
         if self.normalize:
             for v in self.vars:
-                out[v] /= pdata[FV.var2amb[v]]
+                out[f"DELTA_{v}"] /= pdata[FV.var2amb[v]]
 
         return out
-- 
2.43.0


From 02631c3b56ddf32db6bb6ce149e9d08600d2307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:22 +0000
Subject: [PATCH 57/58] fix: define the variable TKE that TKE2TI needs

---
 foxes/variables.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foxes/variables.py b/foxes/variables.py
index dbfefde..ddf5140 100644
--- a/foxes/variables.py
+++ b/foxes/variables.py
@@ -261,6 +261,11 @@ MOL = "MOL"
 :group: foxes.variables
 """
 
+TKE = "TKE"
+""" The turbulent kinetic energy in m2/s2
+:group: foxes.variables
+"""
+
 USTAR = "USTAR"
 """ The friction velocity in m/s
 :group: foxes.variables
-- 
2.43.0


From 87e29b652785cd261e73f2a9a8860b19911bd4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:09 +0000
Subject: [PATCH 58/58] fix: calc_points with chunked_results called a method
 that does not exist

---
 foxes/algorithms/downwind/downwind.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 412c5b5..47386bd 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -851,6 +851,17 @@ class Downwind(Algorithm):
             point_results = point_results.drop_vars(dvars)
 
         if chunked_results:
-            point_results = self.chunked(point_results)
+            engine = get_engine()
+            cks = {
+                FC.STATE: engine.chunk_size_states,
+                FC.POINT: engine.chunk_size_points,
+            }
+            point_results = point_results.chunk(
+                {
+                    d: -1 if n is None else n
+                    for d, n in cks.items()
+                    if d in point_results.sizes
+                }
+            )
 
         return point_results
-- 
2.43.0

