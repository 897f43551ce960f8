From 0815cc9c6a71e34a49b7ab87ab2b5cc87174f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:56 +0000
Subject: [PATCH 01/24] fix: keep sediment parcels in the first row from
 stepping outside of the domain

---
 pyDeltaRCM/sed_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index a545be1..6b2a9ff 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -266,6 +266,9 @@ def _get_weight_at_cell_sediment(
     """
     dry = depth_nbrs <= dry_depth
     wall = ct_nbrs == -2
+    if ind[0] == 0:
+        # neighbors of the first row lie outside of the domain
+        wall[:3] = True
     ctr = np.arange(9) == 4
     drywall = np.logical_or(dry, wall)
 
-- 
2.43.0


From d42a8e00cf61d5e85a1974ceda397bc7f6e7ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:56 +0000
Subject: [PATCH 02/24] fix: last-resort water weights never keep a parcel in
 place or send it outside of the domain

---
 pyDeltaRCM/water_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 786b4bb..3d1f97e 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -685,10 +685,10 @@ def _get_weight_at_cell_water(
                 # no wet (and valid) neighbors. How did we get here??
                 #    Maybe by flooding corrections? Solution is to
                 #    allow to walk into any non-land cell, true random
-                nnotwall = np.sum(~wall)
+                nvalid = np.sum(~invalid)
                 weight[:] = 0
-                if nnotwall > 0:
-                    weight[~wall] = 1 / nnotwall
+                if nvalid > 0:
+                    weight[~invalid] = 1 / nvalid
                 else:
                     raise RuntimeError(
                         "No non-wall cells surrounding cell. " "Please report error."
-- 
2.43.0


From ec16b9f194ecac2b9a305bacd130059a999ad040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:05 +0000
Subject: [PATCH 03/24] fix: turning off velocity figures removes the velocity
 figure, not the sediment flux one

---
 pyDeltaRCM/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 3101242..64c70fa 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -723,7 +723,7 @@ class DeltaModel(
         elif (save_velocity_figs is False) and (
             "velocity" in self._save_fig_list.keys()
         ):
-            del self._save_fig_list["sedflux"]
+            del self._save_fig_list["velocity"]
         self._save_velocity_figs = save_velocity_figs
 
     @property
-- 
2.43.0


From 82af5b23b144256c11134c7090dcabbd1571d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:22 +0000
Subject: [PATCH 04/24] fix: do not truncate the time since the last output
 when resuming from a checkpoint

---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 97c5407..86cb4ca 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -889,7 +889,7 @@ class init_tools(abc.ABC):
         self.H_SL = float(checkpoint["H_SL"])
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
-        self._save_time_since_data = int(checkpoint["save_time_since_data"])
+        self._save_time_since_data = float(checkpoint["save_time_since_data"])
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From 2a5bc0e4c2451f319c9668232729362570e73cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 05/24] fix: reject flat and two-dimensional indices just past
 the end of the grid

custom_unravel(L*W) and custom_ravel((L, W)) silently returned a cell
outside of the grid instead of raising IndexError.
---
 pyDeltaRCM/shared_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/shared_tools.py b/pyDeltaRCM/shared_tools.py
index 8afb406..27abd9c 100644
--- a/pyDeltaRCM/shared_tools.py
+++ b/pyDeltaRCM/shared_tools.py
@@ -281,7 +281,7 @@ def custom_unravel(i: int, shape: Tuple[int, int]) -> Tuple[int, int]:
         >>> custom_unravel(5124, _shape)
         (25, 124)
     """
-    if i > (shape[1] * shape[0]):
+    if i >= (shape[1] * shape[0]):
         raise IndexError("Index is out of array bounds")
     x = i // shape[1]
     y = i % shape[1]
@@ -327,7 +327,7 @@ def custom_ravel(tup: Tuple[int, int], shape: Tuple[int, int]) -> int:
         >>> custom_ravel((25, 124), _shape)
         5124
     """
-    if tup[0] > shape[0] or tup[1] > shape[1]:
+    if tup[0] >= shape[0] or tup[1] >= shape[1]:
         raise IndexError("Index is out of array bounds")
     x = tup[0] * shape[1]
     y = tup[1]
-- 
2.43.0


From 58736d83e5acfd6d15e694eace62982f5428e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 06/24] fix: do not relocate a looped parcel from an unset
 location

When a parcel loops at the origin of the mean-transport vector, the new
location was never assigned (or was that of the parcel handled before).
---
 pyDeltaRCM/water_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 3d1f97e..0e6b711 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -974,6 +974,7 @@ def _check_for_loops(
                     Fw = np.sqrt(Fx**2 + Fy**2)
 
                     # relocate the parcel along mean-transport vector
+                    px, py = px0, py0
                     if Fw != 0:
                         px = px0 + int(np.round(Fx / Fw * 5.0))
                         py = py0 + int(np.round(Fy / Fw * 5.0))
-- 
2.43.0


From d0492af7871e99c9da514289ce6adebcbe58c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 07/24] fix: flood dry cells only from wet neighbors inside of
 the domain

Dry neighbors and neighbors beyond the domain edge were treated as having
a stage of zero, which floods cells to zero when sea level is below zero.
---
 pyDeltaRCM/water_tools.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 0e6b711..9401a79 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -543,15 +543,15 @@ class water_tools(abc.ABC):
         # indices of dry cells with wet neighbors
         shore_ind = np.where(wet_mask_nh_sum > 0)
 
-        stage_nhs = self.build_weight_array(self.stage)
+        stage_nhs = self.build_weight_array(self.stage, fix_edges=True)
         eta_shore = self.eta[shore_ind]
 
         for i in range(len(shore_ind[0])):
-            # pretends dry neighbor cells have stage zero
-            #    so they cannot be > eta_shore[i]
-            stage_nh = (
-                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]]
-                * stage_nhs[:, shore_ind[0][i], shore_ind[1][i]]
+            # only the stage of wet neighbor cells can flood the cell
+            stage_nh = np.where(
+                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]] > 0,
+                stage_nhs[:, shore_ind[0][i], shore_ind[1][i]],
+                -np.inf,
             )
 
             if (stage_nh > eta_shore[i]).any():
-- 
2.43.0


From 982865483513e8238cf60a76e3cbe18adc862cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 08/24] fix: changing the bedload fraction during a run also
 updates the sand transport capacity

---
 pyDeltaRCM/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 64c70fa..cc2c599 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -553,6 +553,9 @@ class DeltaModel(
                 "Value for f_bedload must be between 0 and 1," " inclusive."
             )
         self._f_bedload = f_bedload
+        if hasattr(self, "_sr"):
+            # the sand transport capacity depends on the bedload fraction
+            self.init_sediment_routers()
 
     @property
     def active_layer_thickness(self) -> float:
-- 
2.43.0


From 5d788b1720daa78c60d746ec8063eab86c08de71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:25 +0000
Subject: [PATCH 09/24] fix: critical velocities follow the inlet velocity when
 it is changed during a run

---
 pyDeltaRCM/init_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 86cb4ca..bcc813e 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -299,10 +299,6 @@ class init_tools(abc.ABC):
         self.theta_sand = self._coeff_theta_sand * self._theta_water
         self.theta_mud = self._coeff_theta_mud * self._theta_water
 
-        self.U_dep_mud = self._coeff_U_dep_mud * self._u0
-        self.U_ero_sand = self._coeff_U_ero_sand * self._u0
-        self.U_ero_mud = self._coeff_U_ero_mud * self._u0
-
         self.L = int(round(self._Length / self._dx))  # num cells in x
         self.W = int(round(self._Width / self._dx))  # num cells in y
 
@@ -421,6 +417,10 @@ class init_tools(abc.ABC):
         self.u_max = 2.0 * self._u0  # maximum allowed flow velocity
         self.C0 = self._C0_percent * 1 / 100.0  # sediment concentration
 
+        self.U_dep_mud = self._coeff_U_dep_mud * self._u0
+        self.U_ero_sand = self._coeff_U_ero_sand * self._u0
+        self.U_ero_mud = self._coeff_U_ero_mud * self._u0
+
         # (m) critial depth to switch to "dry" node
         self.dry_depth = min(0.1, 0.1 * self._h0)
 
-- 
2.43.0


From b73411ef712cfb21a1418873bd032ff949190537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:25 +0000
Subject: [PATCH 10/24] fix: keep the subsidence rate when a changed boundary
 condition changes the time step

---
 pyDeltaRCM/init_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index bcc813e..e8f35dc 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -449,7 +449,11 @@ class init_tools(abc.ABC):
         # initial width of self.free_surf_walk_indices
         self.size_indices = int(self.stepmax / 2)
 
-        self._dt = self.dVs / self.Qs0  # time step size
+        _dt = self.dVs / self.Qs0  # time step size
+        if hasattr(self, "sigma"):
+            # keep the rate of subsidence when the time step changes
+            self.sigma = (self.sigma / self._dt) * _dt
+        self._dt = _dt
 
         self.omega_flow_iter = 2.0 / self._itermax
 
-- 
2.43.0


From c769a0ee57b16f163680e18ce454bb155aa74da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:25 +0000
Subject: [PATCH 11/24] fix: scale topographic diffusion with a changed time
 step

---
 pyDeltaRCM/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index cc2c599..143768e 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1394,6 +1394,9 @@ class DeltaModel(
         if self.toggle_subsidence:
             self.sigma = (self.sigma / self._dt) * new_time_step
 
+        self.diffusion_multiplier = (
+            self.diffusion_multiplier / self._dt
+        ) * new_time_step
         self._dt = new_time_step
         self.init_sediment_routers()
 
-- 
2.43.0


From 33a27ffe3a075a7c124d801413a185318d817e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:25 +0000
Subject: [PATCH 12/24] fix: accept an explicit null for parameters that allow
 it

---
 pyDeltaRCM/init_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index e8f35dc..0041a7e 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -107,7 +107,9 @@ class init_tools(abc.ABC):
             if not type(v["type"]) is list:
                 default_dict[k]["type"] = [eval(v["type"])]
             else:
-                default_dict[k]["type"] = [eval(_v) for _v in v["type"]]
+                default_dict[k]["type"] = [
+                    type(None) if _v == "None" else eval(_v) for _v in v["type"]
+                ]
 
         # only access the user input file if provided.
         if self.input_file:
@@ -165,7 +167,9 @@ class init_tools(abc.ABC):
                 if not type(v["type"]) is list:
                     expected_type = [eval(v["type"])]
                 else:
-                    expected_type = [eval(_v) for _v in v["type"]]
+                    expected_type = [
+                        type(None) if _v == "None" else eval(_v) for _v in v["type"]
+                    ]
                 # evaluate against expected types
                 if type(user_dict[k]) in expected_type:
                     input_file_vars[k] = user_dict[k]
-- 
2.43.0


From ac4ea87539a94e0c3ec7c0ae858e194a08f40ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:25 +0000
Subject: [PATCH 13/24] fix: run durations given as arguments override the
 configuration file

---
 pyDeltaRCM/preprocessor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9246836..15a3019 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -605,8 +605,8 @@ class BasePreprocessor(abc.ABC):
                 # apply job yaml to config dict
                 #   enables complex job setups, where configs are edited
                 #   between writing and .run_jobs()
-                job_config = self.config_list[i].copy()
-                job_config.update(job_yaml)
+                job_config = job_yaml.copy()
+                job_config.update(self.config_list[i])
 
                 # instantiate the job
                 p = _ParallelJob(
@@ -646,8 +646,8 @@ class BasePreprocessor(abc.ABC):
                 # apply job yaml to config dict
                 #   enables complex job setups, where configs are edited
                 #   between writing and .run_jobs()
-                job_config = self.config_list[i].copy()
-                job_config.update(job_yaml)
+                job_config = job_yaml.copy()
+                job_config.update(self.config_list[i])
 
                 p = _SerialJob(
                     i=i,
-- 
2.43.0


From dbd99f4c1c2e5aa08fd7a9bf8db599f1b1e2ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:25 +0000
Subject: [PATCH 14/24] fix: do not repeat the checkpoint one step after
 resuming from it

---
 pyDeltaRCM/init_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 0041a7e..38d8bcb 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -898,6 +898,7 @@ class init_tools(abc.ABC):
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
         self._save_time_since_data = float(checkpoint["save_time_since_data"])
+        self._save_time_since_checkpoint = 0  # just saved
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From 4984a55fbb8ec91db57a96a9f3f094f1dcb98cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:25 +0000
Subject: [PATCH 15/24] fix: rounding of the accumulated model time does not
 add a time step to a job

---
 pyDeltaRCM/preprocessor.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 15a3019..b5ed37b 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -748,6 +748,14 @@ class _BaseJob(abc.ABC):
                 "the input YAML file or via input arguments."
             )
 
+    def _time_remains(self) -> bool:
+        """Whether the job needs another time step.
+
+        Rounding in the accumulated model time must not add a time step.
+        """
+        _remaining = self._job_end_time - self.deltamodel._time
+        return _remaining > 1e-6 * self.deltamodel._dt
+
     @abc.abstractmethod
     def run(self):
         """Implementation to run the jobs as needed.
@@ -792,7 +800,7 @@ class _SerialJob(_BaseJob):
         # try to initialize and run the model
         try:
             # run the simulation
-            while self.deltamodel._time < self._job_end_time:
+            while self._time_remains():
                 self.deltamodel.update()
 
         # if the model run fails
@@ -896,7 +904,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                     self.deltamodel.output_checkpoint()
 
                 # run the simualtion
-                while self.deltamodel._time < self._job_end_time:
+                while self._time_remains():
                     self.deltamodel.update()
 
             # if the model run fails
-- 
2.43.0


From 187a0fde4f4620ca5846e2d4c5e5727fa3b67199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:25 +0000
Subject: [PATCH 16/24] fix: serial jobs of a multi-job run draw from their own
 random seed

---
 pyDeltaRCM/preprocessor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index b5ed37b..f543d24 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -790,6 +790,9 @@ class _SerialJob(_BaseJob):
         super().__init__(
             i, input_file, config_dict, DeltaModel=DeltaModel, defer_output=False
         )
+        # the models of all serial jobs are set up before the first one runs,
+        # and share one random number generator
+        self._rng_state = shared_tools.get_random_state()
 
     def run(self) -> None:
         """Loop the model.
@@ -797,6 +800,9 @@ class _SerialJob(_BaseJob):
         Iterate the timestep ``update`` routine for the specified number of
         iterations.
         """
+        # continue from the random state this job was set up with
+        shared_tools.set_random_state(self._rng_state)
+
         # try to initialize and run the model
         try:
             # run the simulation
-- 
2.43.0


From 3da79ae12bf324eac1b7cebfe80727832754a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:01 +0000
Subject: [PATCH 17/24] fix: the job table lists the values of a set under
 their own parameter

---
 pyDeltaRCM/preprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index f543d24..ce0b261 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -378,7 +378,10 @@ class BasePreprocessor(abc.ABC):
             ith_config["out_dir"] = ith_dir
 
             # loop through each var of this job
-            for j, (key, val) in enumerate(_set[i].items()):
+            #   in the order of the table header (i.e., the first set)
+            for j, key in enumerate(_set[0].keys()):
+                val = _set[i][key]
+
                 # write info into fixed config dict
                 ith_config[key] = val
 
-- 
2.43.0


From 4700ec793e7cc8e02b87e7fd0b0cbe12df3ea9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:07 +0000
Subject: [PATCH 18/24] fix: step limits below four leave room to record the
 parcels' walks

---
 pyDeltaRCM/init_tools.py  | 2 +-
 pyDeltaRCM/water_tools.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 38d8bcb..8c0855e 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -451,7 +451,7 @@ class init_tools(abc.ABC):
             self.stepmax = int(self.stepmax)
 
         # initial width of self.free_surf_walk_indices
-        self.size_indices = int(self.stepmax / 2)
+        self.size_indices = max(1, int(self.stepmax / 2))
 
         _dt = self.dVs / self.Qs0  # time step size
         if hasattr(self, "sigma"):
diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 9401a79..7f39e31 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -357,7 +357,7 @@ class water_tools(abc.ABC):
             self.log_info(_msg, verbosity=2)
 
             indices_blank = np.zeros(
-                (int(self._Np_water), int(self.stepmax / 4)), dtype=int
+                (int(self._Np_water), max(1, int(self.stepmax / 4))), dtype=int
             )
 
             self.free_surf_walk_inds = np.hstack(
-- 
2.43.0


From 5972145ce6d563d089af3094454f51aa28d7bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 19/24] fix: a job's configuration file replaces the one of an
 earlier run

---
 pyDeltaRCM/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index ce0b261..5b8f2ca 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1201,7 +1201,7 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-    f = open(_path, "a")
+    f = open(_path, "w")
     for k in _config.keys():
         _write_parameter_to_file(f, k, _config[k])
     f.close()
-- 
2.43.0


From f8c9e208a64df945c43f5c7f430357b2068399ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:45 +0000
Subject: [PATCH 20/24] fix: text with a special meaning in YAML is quoted in a
 job's configuration file

---
 pyDeltaRCM/preprocessor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 5b8f2ca..b81f84c 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1194,10 +1194,22 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         well. Please do not move.
     """
 
+    def _reads_back(text):
+        """Whether text is read from a YAML file as it is written."""
+        loader = shared_tools.custom_yaml_loader()
+        try:
+            return yaml.load("x: " + text, Loader=loader) == {"x": text}
+        except yaml.YAMLError:
+            return False
+
     def _write_parameter_to_file(f, varname, varvalue):
         """Write each line, formatted."""
         if varvalue is None:
             f.write(varname + ": " + "null" + "\n")
+        elif isinstance(varvalue, str) and not _reads_back(varvalue):
+            # text with a special meaning in YAML has to be quoted
+            _quoted = yaml.safe_dump(varvalue, default_style='"', width=float("inf"))
+            f.write(varname + ": " + _quoted.rstrip("\n") + "\n")
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-- 
2.43.0


From 909ed78f727b319ce86a5539d9188ce637d0d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 21/24] fix: the intermittency given on the command line is a
 number

---
 pyDeltaRCM/preprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index b81f84c..3031da0 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1088,6 +1088,8 @@ class PreprocessorCLI(BasePreprocessor):
         if args_dict["If"] is None:
             # if not given remove the key from cli spec
             args_dict.pop("If")
+        else:
+            args_dict["If"] = float(args_dict["If"])
 
         return args_dict
 
-- 
2.43.0


From c967d19b04a144b2eac954e91d3f97ce31a78469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:17 +0000
Subject: [PATCH 22/24] fix: a dry run configured in the file is not undone by
 the command line

---
 pyDeltaRCM/preprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 3031da0..d859374 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1085,6 +1085,9 @@ class PreprocessorCLI(BasePreprocessor):
         if args_dict["parallel"] is None:
             # if not given remove the key from cli spec
             args_dict.pop("parallel")
+        if not args_dict["dryrun"]:
+            # if not given remove the key from cli spec
+            args_dict.pop("dryrun")
         if args_dict["If"] is None:
             # if not given remove the key from cli spec
             args_dict.pop("If")
-- 
2.43.0


From 3ddaafacd84db7c0c163e796b856ce1c2fcf1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:48 +0000
Subject: [PATCH 23/24] fix: an erosion modifier array replaced during a run
 reaches the sediment routers

---
 pyDeltaRCM/sed_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index 6b2a9ff..b5b43e2 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -127,6 +127,7 @@ class sed_tools(abc.ABC):
         _msg = "Supplying model state to SandRouter for iteration"
         self.log_info(_msg, verbosity=2)
 
+        self._sr.mod_erosion = np.asarray(self.mod_erosion, dtype=np.float32)
         self._sr.run(
             start_indices,
             self.eta,
@@ -195,6 +196,7 @@ class sed_tools(abc.ABC):
         _msg = "Supplying model state to MudRouter for iteration"
         self.log_info(_msg, verbosity=2)
 
+        self._mr.mod_erosion = np.asarray(self.mod_erosion, dtype=np.float32)
         self._mr.run(
             start_indices,
             self.eta,
-- 
2.43.0


From 39d706c24cbb0638245b48ab2851bff999d16f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:29 +0000
Subject: [PATCH 24/24] fix: show_line takes lists of indices and pairs and
 returns every line it draws

---
 pyDeltaRCM/debug_tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/debug_tools.py b/pyDeltaRCM/debug_tools.py
index 95c3832..f53af4d 100644
--- a/pyDeltaRCM/debug_tools.py
+++ b/pyDeltaRCM/debug_tools.py
@@ -172,12 +172,17 @@ class debug_tools(abc.ABC):
 
         """
         _shape = self.depth.shape
+        if isinstance(ind, list) and not any(isinstance(i, np.ndarray) for i in ind):
+            # a single line, given as flat indices or as pairs
+            ind = np.array(ind)
+
         if isinstance(ind, list):
+            lines = []
             for _, iind in enumerate(ind):
                 _l = plot_line(
                     iind.flatten(), shape=_shape, nozeros=nozeros, *args, **kwargs
                 )
-                lines = [_l]
+                lines.append(_l)
         elif isinstance(ind, np.ndarray):
             if ind.ndim > 2:
                 raise NotImplementedError("Not implemented for arrays > 2d.")
-- 
2.43.0

