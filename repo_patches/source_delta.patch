From ba40fe118452389805dcc755a5de1389e6e9c159 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 01/36] fix: read the lower bound of >= rows in
 LpInstance.get_rhs()

---
 hylaa/lpinstance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 495b7ae..69739f7 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -808,7 +808,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
             if row_type in [glpk.GLP_FX, glpk.GLP_UP]:
                 limit = glpk.glp_get_row_ub(self.lp, row + 1)
             elif row_type == glpk.GLP_LO:
-                limit = glpk.glp_get_row_ub(self.lp, row + 1)
+                limit = glpk.glp_get_row_lb(self.lp, row + 1)
             else:
                 raise RuntimeError("Error: Unsupported type ({}) in getRhs() in row {}".format(row_type, row))
 
-- 
2.43.0


From 095ca957ef4d535a5386c34468f1b50720e687c4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 02/36] fix: compare the sparsity structure of both constraints
 in LinearConstraint.almost_equals()

---
 hylaa/hybrid_automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7f2166a..7738974 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -37,9 +37,9 @@ class LinearConstraint(Freezable):
             rv = False
         elif self.csr.shape != other.csr.shape:
             rv = False
-        elif not (self.csr.indices == other.csr.indices).all():
+        elif not np.array_equal(self.csr.indices, other.csr.indices):
             rv = False
-        elif not (self.csr.indptr == self.csr.indptr).all():
+        elif not np.array_equal(self.csr.indptr, other.csr.indptr):
             rv = False
         else:
             for i in range(len(self.csr.data)):
-- 
2.43.0


From 0012acfb900246fe6974b1d4c8bb11b34aa51e9c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 03/36] fix: reject unknown approximation models

---
 hylaa/stateset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index bbb3106..04c247e 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -341,4 +341,4 @@ class StateSet(Freezable):
         elif approx_model == HylaaSettings.APPROX_LGG:
             self.apply_approx_lgg()
         elif approx_model != HylaaSettings.APPROX_NONE:
-            assert f"Unknown approx_model from settings: {approx_model}"
+            raise RuntimeError(f"Unknown approx_model from settings: {approx_model}")
-- 
2.43.0


From 1fb678f4e83a43b75b8611ce0c6d072a9465487c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 04/36] fix: forget row indices and vertices of the LP replaced
 by an approximation model

---
 hylaa/stateset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index 04c247e..2792c7d 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -342,3 +342,8 @@ class StateSet(Freezable):
             self.apply_approx_lgg()
         elif approx_model != HylaaSettings.APPROX_NONE:
             raise RuntimeError(f"Unknown approx_model from settings: {approx_model}")
+
+        if approx_model != HylaaSettings.APPROX_NONE:
+            # lpi was replaced: rows and vertices cached for the old one are no longer valid
+            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
+            self._verts = None
-- 
2.43.0


From 988d83362e8df46db3c6adbac15b6d8e3c70a0f8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 05/36] fix: clear the time-triggered transition flag when a
 new state is popped

---
 hylaa/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 4a4d812..cd412c7 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -252,6 +252,7 @@ class Core(Freezable):
 
         Timers.tic('do_step_pop')
 
+        self.took_tt_transition = False # the flag refers to the previous state
         self.plotman.state_popped() # reset certain per-mode plot variables
         self.aggdag.print_waiting_list()
 
-- 
2.43.0


From 5af3cc3b68a81f2a34efcdc836bf32165303b451 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 06/36] fix: do not try guards in the first simulation step of
 any simulation

---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index cd412c7..ccad326 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -560,7 +560,6 @@ class Core(Freezable):
                     self.sim_states[i] = None
                     continue
 
-                self.sim_should_try_guards = True
                 finished = False
                 
                 # advance time
@@ -569,6 +568,8 @@ class Core(Freezable):
                 obj[1] = pt
                 obj[2] = steps + 1
 
+            self.sim_should_try_guards = True
+
             if finished:
                 self.plotman.commit_cur_sims()
                 self.sim_states = None
-- 
2.43.0


From fcf0e2a32b299a175afe607e84da9ba3c88b36a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 07/36] fix: do not build a counter-example trace out of an
 approximation model

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index ccad326..bd3521c 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -119,7 +119,9 @@ class Core(Freezable):
                               f"{self.settings.num_steps}, time {times}")
 
 
-            if self.settings.make_counterexample and not self.result.counterexample:
+            # the LP only encodes a single trace under discrete-time semantics (no approximation model)
+            if self.settings.make_counterexample and not self.result.counterexample and \
+                    self.settings.approx_model == HylaaSettings.APPROX_NONE:
                 self.print_verbose("Reached concrete error state; making concrete counter-example")
                 self.result.counterexample = make_counterexample(self.hybrid_automaton, state, t, t_lpi)
 
-- 
2.43.0


From 243db2d23f07606ca8098f6827ffa01f27baea91 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 08/36] fix: plot dimension zero on the y axis and direction
 vectors in pt_to_plot_xy()

---
 hylaa/lpplot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 292c638..0c96310 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -23,13 +23,13 @@ def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
 
     if isinstance(xdim, int):
         x = pt[xdim]
-    elif xdim:
+    elif xdim is not None:
         assert isinstance(xdim, np.ndarray)
         x = np.dot(pt, xdim)
 
-    if ydim and isinstance(ydim, int):
+    if isinstance(ydim, int):
         y = pt[ydim]
-    elif ydim:
+    elif ydim is not None:
         assert isinstance(ydim, np.ndarray)
         y = np.dot(pt, ydim)
 
-- 
2.43.0


From adca67ec521e1db155a33a02dca2fddcebbd393d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 09/36] fix: return vertices when time is plotted on both axes

---
 hylaa/lpplot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 0c96310..8a46aae 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -60,13 +60,13 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
     #try:
     if xdim is None and ydim is None:
         if abs(cur_time[0] - cur_time[1]) < tol:
-            pts = [[cur_time, cur_time]]
+            verts = [[cur_time[0], cur_time[0]]]
         else:
-            pts = []
-            pts.append([cur_time.min, cur_time.min])
-            pts.append([cur_time.min, cur_time.max])
-            pts.append([cur_time.max, cur_time.max])
-            pts.append([cur_time.max, cur_time.min])
+            verts = []
+            verts.append([cur_time[0], cur_time[0]])
+            verts.append([cur_time[0], cur_time[1]])
+            verts.append([cur_time[1], cur_time[1]])
+            verts.append([cur_time[1], cur_time[0]])
 
     elif xdim is None:
         # plot over time
-- 
2.43.0


From 3412cb4b5d08d7208f62fb585333214f4299d944 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 10/36] fix: support direction vectors in 2-d plots

---
 hylaa/lpplot.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 8a46aae..71a9324 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -122,6 +122,7 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
         # use bbox to determine acceptable accuracy... might be better to somehow do this
         epsilon = min(bboxw) / 1000.0
         dim_list = [xdim, ydim]
+        dir_list = [_dim_to_direction(lpi, dim) for dim in dim_list]
 
         def supp_point_nd(vec):
             'return a supporting point for the given direction (maximize)'
@@ -131,8 +132,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             d = np.zeros((lpi.dims,), dtype=float)
             # negative here because we want to MAXIMIZE not minimize
 
-            for i, dim_index in enumerate(dim_list):
-                d[dim_index] = -vec[i]
+            for i, direction in enumerate(dir_list):
+                d += -vec[i] * direction
 
             lpi.set_minimize_direction(d)
 
@@ -140,8 +141,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
             rv = []
 
-            for dim in dim_list:
-                rv.append(res[dim])
+            for direction in dir_list:
+                rv.append(np.dot(direction, res))
 
             rv = np.array(rv, dtype=float)
 
@@ -166,19 +167,25 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
     return verts
 
+def _dim_to_direction(lpi, dim):
+    'convert a dimension number or direction vector to a direction vector'
+
+    if isinstance(dim, int):
+        dim = np.array([1.0 if d == dim else 0.0 for d in range(lpi.dims)], dtype=float)
+
+    return dim
+
 def bbox_widths(lpi, xdim, ydim):
     'find and return the bounding box widths of the lp for the passed-in dimensions'
 
     rv = []
-    dims = lpi.dims
+    cols = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
 
     for dim in [xdim, ydim]:
-        col = lpi.cur_vars_offset + dim
-        min_dir = [1 if i == dim else 0 for i in range(dims)]
-        max_dir = [-1 if i == dim else 0 for i in range(dims)]
+        direction = _dim_to_direction(lpi, dim)
         
-        min_val = lpi.minimize(direction_vec=min_dir, columns=[col])[0]
-        max_val = lpi.minimize(direction_vec=max_dir, columns=[col])[0]
+        min_val = np.dot(direction, lpi.minimize(direction_vec=direction, columns=cols))
+        max_val = np.dot(direction, lpi.minimize(direction_vec=-1 * direction, columns=cols))
 
         dx = max_val - min_val
 
-- 
2.43.0


From 0667a1ce22b90bdf34fe281e7d746df66335ffb6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 11/36] fix: remove a deleted state from the plot data of every
 subplot

---
 hylaa/result.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 9a64e9d..70eeed3 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -83,9 +83,6 @@ class PlotData(Freezable):
                     obj_list.pop(index)
                     break
 
-            if found:
-                break
-
         assert found
 
     def get_plot_data(self, x, y, subplot=0):
-- 
2.43.0


From b996bd0bc60ecd02cfd912e494de0c497b364aa9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 12/36] fix: sample counter-example replays at every step

---
 hylaa/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 70eeed3..80640bb 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -226,7 +226,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         der_func = make_der_func(a_mat, b_mat, [])
 
         start = segment.start
-        times = np.linspace(0, segment.steps * step_size, num=segment.steps)
+        times = np.linspace(0, segment.steps * step_size, num=segment.steps + 1)
         tol = 1e-9
         states = odeint(der_func, start, times, col_deriv=True, rtol=tol, atol=tol, mxstep=int(1e7))
 
-- 
2.43.0


From 6742b3041f7c57e19540b847f0f83fa71001f877 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 13/36] fix: copy right-hand sides passed to the model building
 functions

---
 hylaa/hybrid_automaton.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7738974..8783360 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -124,8 +124,7 @@ class Mode(Freezable):
         if not isinstance(constraints_csr, csr_matrix):
             constraints_csr = csr_matrix(constraints_csr, dtype=float)
             
-        if not isinstance(constraints_rhs, np.ndarray):
-            constraints_rhs = np.array(constraints_rhs, dtype=float)
+        constraints_rhs = np.array(constraints_rhs, dtype=float) # copy, may be modified
 
         constraints_rhs.shape = (len(constraints_rhs), ) # flatten rhs into a 1-d array
         assert constraints_csr.shape[1] == self.a_csr.shape[0], \
@@ -220,8 +219,7 @@ class Mode(Freezable):
         if not isinstance(u_constraints_csr, csr_matrix):
             u_constraints_csr = csr_matrix(u_constraints_csr, dtype=float)
             
-        if not isinstance(u_constraints_rhs, np.ndarray):
-            u_constraints_rhs = np.array(u_constraints_rhs, dtype=float)
+        u_constraints_rhs = np.array(u_constraints_rhs, dtype=float) # copy, may be modified
         
         u_constraints_rhs.shape = (len(u_constraints_rhs), ) # flatten init_rhs into a 1-d array
 
@@ -328,8 +326,7 @@ class Transition(Freezable):
         if not isinstance(guard_csr, csr_matrix):
             guard_csr = csr_matrix(guard_csr, dtype=float)
             
-        if not isinstance(guard_rhs, np.ndarray):
-            guard_rhs = np.array(guard_rhs, dtype=float)
+        guard_rhs = np.array(guard_rhs, dtype=float) # copy, may be modified
         
         assert self.from_mode.a_csr is not None, "A-matrix not assigned in predecessor mode {}".format(self.from_mode)
 
-- 
2.43.0


From 0853be5c81c396a0d3e25762d513956ddac041af Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 14/36] fix: reject reset minkowski terms without constraints

---
 hylaa/hybrid_automaton.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 8783360..75734b9 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -403,6 +403,9 @@ class Transition(Freezable):
 
             assert lputil.is_feasible(reset_minkowski_constraints_csr, reset_minkowski_constraints_rhs), \
                 "reset minkowski variable constraints were infeasible"
+        else:
+            assert reset_minkowski_csr is None and reset_minkowski_constraints_csr is None, \
+                "reset_minkowski_constraints_rhs must be provided if reset minkowski variables are used"
 
         self.reset_csr = reset_csr
         self.reset_minkowski_csr = reset_minkowski_csr
-- 
2.43.0


From 42e8aaa445f9ab6d0ef1f65b0cd62f0cd908dda1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 15/36] fix: check the width of the input effects matrix with
 the lgg approximation model

---
 hylaa/lputil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index c0a3d12..b07d956 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -230,7 +230,7 @@ def add_input_effects_matrix(lpi, input_mat, mode, lgg_beta=None):
     if lgg_beta is None:
         assert input_mat.shape[1] == num_inputs
     else:
-        assert input_mat.shape[1] + num_inputs + num_vars
+        assert input_mat.shape[1] == num_inputs + num_vars
     
     assert input_mat.shape[0] == num_vars
     assert lpi.dims == num_vars
-- 
2.43.0


From 4f3337a67773acd6b604d700c6fb0c7ce2ebd738 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 16/36] fix: use a dense matrix exponential for multi-step lgg
 input effects

---
 hylaa/time_elapse_expm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index 99df3da..d438312 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -113,16 +113,16 @@ class TimeElapseExpmMult(Freezable):
 
             Timers.tic('expm')
             # compute one step behind, because this is what's used by input effects matrix
-            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size)
+            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size).toarray()
             Timers.toc('expm')
 
             # advance one step to get current basis matrix
-            self.cur_basis_matrix = np.dot(prev_step_mat_exp.toarray(), self.one_step_matrix_exp)
+            self.cur_basis_matrix = np.dot(prev_step_mat_exp, self.one_step_matrix_exp)
 
             # inputs
             if self.b_csc is not None:
                 Timers.tic("input effects")
-                self.cur_input_effects_matrix = prev_step_mat_exp * self.one_step_input_effects_matrix
+                self.cur_input_effects_matrix = np.dot(prev_step_mat_exp, self.one_step_input_effects_matrix)
                 Timers.toc("input effects")
 
                 if self.use_lgg:
-- 
2.43.0


From ea9415f4103c1420f98a494af05087554aba9069 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 17/36] fix: do not modify arguments and earlier rows in
 reorthogonalize_matrix()

---
 hylaa/lputil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index b07d956..ab84b37 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -958,6 +958,8 @@ def reorthogonalize_matrix(mat, dims):
 
     while len(rv) < dims:
         if next_index >= mat.shape[0]:
+            cur_vec = None
+
             # first try to pick orthonormal directions if we can
             for d in range(dims):
                 found_nonzero = False
@@ -975,7 +977,7 @@ def reorthogonalize_matrix(mat, dims):
             if cur_vec is None:
                 cur_vec = np.random.rand(dims,)
         else:
-            cur_vec = mat[next_index]
+            cur_vec = mat[next_index].copy()
             next_index += 1
 
         # project out the previous vectors
-- 
2.43.0


From 51153853792b2f95362b97bc403a988be508dd95 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 18/36] fix: do not modify the list of names passed to
 from_constraints()

---
 hylaa/lputil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index ab84b37..54180d1 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -125,7 +125,7 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
     if names is None:
         names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(csr.shape[1])]
         
-    names += ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
+    names = names + ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
     
     lpi.add_cols(names)
 
-- 
2.43.0


From 7877ced183606db4f1d34dfd4e39b78d4efff468 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 19/36] fix: let every aggregation strategy choose the
 simulation mode

---
 hylaa/aggstrat.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index ceb8852..3009907 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -62,6 +62,13 @@ class AggregationStrategy(Freezable):
         # premode_center = lputil.get_box_center(t_lpi)
         return True
 
+    def get_simulation_pop_mode(self, sim_waiting_list):
+        '''
+        returns the mode to be popped off the simulation waiting list
+        '''
+
+        return sim_waiting_list[0][0]
+
     def get_agg_type(self, op_list):
         '''
         Gets the type of aggregation to be performed for the passed in objects. 
-- 
2.43.0


From 8d21adc768b32885d23c07a54b639731d90fac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 20/36] fix: seal the de-aggregation manager against undeclared
 attributes

---
 hylaa/deaggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 85018a0..ea77144 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -46,6 +46,8 @@ class DeaggregationManager(Freezable):
 
         self.replay_step = None # current step during a replay
 
+        self.freeze_attrs()
+
     def doing_replay(self):
         'are we in the middle of a refinement replay?'
 
-- 
2.43.0


From 215c8587bcb282ca043060a630595d9e4aaa741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 21/36] fix: update stored plot data on de-aggregation also
 when nothing is drawn

---
 hylaa/plotutil.py | 20 ++++++++++----------
 hylaa/result.py   |  6 +++---
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 0b8e96b..a99b555 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -696,6 +696,10 @@ class PlotManager(Freezable):
     def delete_plotted_state(self, stateset, step):
         'delete an already-plotted state'
 
+        # delete it from the result object, also if nothing was drawn
+        if self.core.result.plot_data is not None:
+            self.core.result.plot_data.remove_state(stateset, step, missing_ok=True)
+
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             verts = stateset.del_plot_path(step)
 
@@ -703,27 +707,23 @@ class PlotManager(Freezable):
                 pass # this happens during normal operation (nested deaggregation)
                 #print(f".#######plotutil plot was already deleted: {stateset}")
             else:
-                # delete it from the result object
-                if self.core.result.plot_data is not None:
-                    self.core.result.plot_data.remove_state(stateset, step)
-
                 # plot the verts of the deleted old plotted state
                 self.highlight_states_gray([verts])
 
     def add_plotted_states(self, stateset_list):
         'add the passed-in statesets to be plotted'
 
+        # add it to result, also if nothing is drawn
+        if self.core.result.plot_data is not None:
+            for state in stateset_list:
+                for subplot in range(self.num_subplots):
+                    verts = state.verts(self, subplot=subplot)
+                    self.core.result.plot_data.add_state(state, verts, subplot)
 
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             for state in stateset_list:
                 self.add_reachable_poly(state)
 
-                # add it to result as well
-                if self.settings.store_plot_result:
-                    for subplot in range(self.num_subplots):
-                        verts = state.verts(self, subplot=subplot)
-                        self.core.result.plot_data.add_state(state, verts, subplot)
-
             self.highlight_states(stateset_list)
 
     def highlight_states_gray(self, states):
diff --git a/hylaa/result.py b/hylaa/result.py
index 80640bb..527a51f 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -66,8 +66,8 @@ class PlotData(Freezable):
 
         self.mode_to_obj_list[plot_index][mode_name].append(obj)
 
-    def remove_state(self, state, step):
-        'remove a state that was previously added'
+    def remove_state(self, state, step, missing_ok=False):
+        'remove a state that was previously added (missing_ok: it may have been removed already)'
 
         found = False
 
@@ -83,7 +83,7 @@ class PlotData(Freezable):
                     obj_list.pop(index)
                     break
 
-        assert found
+        assert found or missing_ok
 
     def get_plot_data(self, x, y, subplot=0):
         'get the plot data at x, y, or None if not found'
-- 
2.43.0


From 139edd21da6382e7f2e5f88214c6b9844023e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 22/36] fix: make the trace checker usable with Python 3

---
 hylaa/check_trace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 42faeac..7c21c7d 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -90,7 +90,7 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
 
     # we want to roughly get the desired number of sample points, so we may need to do multiple
     # samples per input
-    samples_per_input = approx_samples / max(1, len(inputs))
+    samples_per_input = approx_samples // max(1, len(inputs))
     if samples_per_input < 1:
         samples_per_input = 1
 
@@ -233,7 +233,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
         flat_inputs = []
         flat_times = []
 
-        for i in xrange(total_steps-1):
+        for i in range(total_steps-1):
             flat_times += [input_times[i], input_times[i+1]]
             flat_inputs += [inputs[i, :], inputs[i, :]]
 
@@ -242,7 +242,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
             flat_times += [input_times[0], input_times[0]]
             flat_inputs += [inputs[0, :], inputs[0, :]]
 
-        for row in xrange(len(flat_inputs[0])):
+        for row in range(len(flat_inputs[0])):
             ax[1].plot(flat_times, [single_input[row] for single_input in flat_inputs], label="$u_{}$".format(row+1))
 
     ##################
@@ -258,7 +258,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
 
     ##################
     # legend
-    for i in xrange(2 if inputs is not None else 1):
+    for i in range(2 if inputs is not None else 1):
         legend = ax[i].legend(loc='best', numpoints=1)
 
         # Set the fontsize
-- 
2.43.0


From f32905ec5f0c12df1ca3b916d0c044eb3029a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 23/36] fix: do not modify the inputs passed to the trace
 checker's plot()

---
 hylaa/check_trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 7c21c7d..14872e6 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -227,8 +227,8 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
         ax[0].set_title('Counter-Example Trace', fontsize=28)
 
     if inputs is not None and len(inputs) > 0:
-        inputs.append(inputs[-1]) # there is one less input than time instants
-        inputs = np.array(inputs, dtype=float)
+        # there is one less input than time instants
+        inputs = np.array(list(inputs) + [inputs[-1]], dtype=float)
 
         flat_inputs = []
         flat_times = []
-- 
2.43.0


From b7ab7d302c3e402cd328209c90181fbe0cc40e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 24/36] fix: measure the radius of a set in its current-time
 variables

---
 hylaa/lputil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 54180d1..459035f 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -1074,7 +1074,7 @@ def compute_radius_inf(lpi):
 
             lp_result = lpi.minimize(dir_vec)
 
-            max_val = max(max_val, abs(lp_result[n]))
+            max_val = max(max_val, abs(lp_result[lpi.cur_vars_offset + n]))
 
     return max_val
 
-- 
2.43.0


From 8377b73a409be852e02e72f59f8a26a05466c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 25/36] fix: do not build lgg input effects on a step computed
 without lgg

---
 hylaa/time_elapse_expm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index d438312..7c1a1d4 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -141,3 +141,6 @@ class TimeElapseExpmMult(Freezable):
 
         self.use_lgg = True
         self.one_step_input_effects_matrix = self.b_csc.toarray() * self.time_elapser.step_size
+
+        # the current input effects matrix (if any) was computed without lgg, so the next step can't build on it
+        self.cur_step = 0
-- 
2.43.0


From 2ebe14bd2dad05f8f4ea5f971049351e438ae0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 26/36] fix: take time-triggered transitions as forced only if
 the dynamics force them

---
 hylaa/hybrid_automaton.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 75734b9..aff6977 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -622,14 +622,17 @@ def get_tt_vars(mode):
     # find all variables with derivative equal to zero
     constant_vars = []
 
+    # variables affected by time-varying inputs are not constant and don't have a constant derivative
+    input_vars = [] if mode.b_csr is None else [i for i, row in enumerate(mode.b_csr) if row.getnnz() > 0]
+
     for i in range(mode.a_csr.shape[0]):
         nonzeros = mode.a_csr[i].getnnz()
 
-        if nonzeros == 0: # row of all zeros
+        if nonzeros == 0 and i not in input_vars: # row of all zeros
             constant_vars.append(i)
 
     for row_index, row in enumerate(mode.a_csr):
-        if row.getnnz() == 0: # skip constant variables
+        if row.getnnz() == 0 or row_index in input_vars: # skip constant variables and those affected by inputs
             continue
 
         all_constant = True
@@ -713,7 +716,8 @@ def was_tt_taken(state_lpi, t, step_size, num_steps):
     '''do the run-time checks to see if this transition was a time-triggred one
 
     if we have x <= K, with x' = -5 * a,
-    make sure that a is a constant (not an interval), not equal to 0, and that x is flat (not an interval)
+    make sure that a is a constant (not an interval), not equal to 0, that x is flat (not an interval), and that x' makes
+    the guard stay true
     '''
 
     # epsilon tolerance is computed to be fatter than the relaxation performed for tt transition
@@ -803,7 +807,10 @@ def was_tt_taken(state_lpi, t, step_size, num_steps):
 
             #print(". min_val = {}, max_val = {}, rhs = {}".format(min_val, max_val, rhs))
 
-            if abs(max_val - min_val) < epsilon and min_val <= rhs:
+            # the state must also be moving further into the guard (out of the invariant)
+            is_leaving = np.dot(direction, a_csr * min_state) < 0
+
+            if abs(max_val - min_val) < epsilon and min_val <= rhs and is_leaving:
                 rv = True
                 
     return rv
-- 
2.43.0


From ee20f292724219fcc22ce4385fdaf44b89f94181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:51 +0000
Subject: [PATCH 27/36] fix: stop on any error, also concrete ones, if
 stop_on_aggregated_error is set

---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index bd3521c..e8d7084 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -86,7 +86,8 @@ class Core(Freezable):
         if self.doing_simulation:
             finished = not self.sim_states and not self.sim_waiting_list
         else:
-            if self.settings.stop_on_aggregated_error and self.result.has_aggregated_error:
+            if self.settings.stop_on_aggregated_error and \
+                    (self.result.has_aggregated_error or self.result.has_concrete_error):
                 finished = True
             elif self.settings.stop_on_concrete_error and self.result.has_concrete_error:
                 finished = True
-- 
2.43.0


From 90cb7ba8d1f7740152d6a90d16bf263c97bdd1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 28/36] fix: aggregate only along the same path if sets may be
 deaggregated

A replay rebuilds the successors of the nodes it replaces from the replaced
nodes only, so states of other paths aggregated into a successor were lost.
---
 hylaa/aggstrat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index 3009907..7de59cf 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -130,7 +130,7 @@ class Aggregated(AggregationStrategy):
             if state is to_remove_state:
                 should_add = True
             elif state.mode is to_remove_state.mode:
-                if not self.require_same_path:
+                if not self.require_same_path and not self.deaggregate: # deaggregation replays one path at a time
                     should_add = True
                 else: # require same path; paths are the same if the parent node and transitions match
                     if to_remove_op is None and op is None:
-- 
2.43.0


From 44536436038acad3c6fb1cc051b93dc58690fae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 29/36] fix: stop replayed states at the time bound

A child of a split set may start later than its parent, and so reach the time
bound in an earlier step of the mode; its transitions were replayed, and errors
reported, after the bound.
---
 hylaa/deaggregation.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index ea77144..d67f997 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -91,6 +91,21 @@ class DeaggregationManager(Freezable):
         self.aggdag.core.print_verbose("Pausing due to start of do_step_replay()")
         self.aggdag.core.plotman.pause()
 
+    def check_time_bound(self, child, op):
+        '''stop the passed-in child if it reaches the time bound before the passed-in operation is replayed
+
+        the parent's time may be an interval, so a child which starts later reaches the bound in an earlier step
+        '''
+
+        if not child.node_left_invariant():
+            state = child.stateset
+            steps_left = self.aggdag.settings.num_steps - state.cur_steps_since_start[0]
+            bound_step = state.cur_step_in_mode + steps_left
+
+            # as in a continuous post, transitions are checked at the bound, but then the computation stops
+            if op.step > bound_step or op.step == bound_step and not isinstance(op, OpTransition):
+                child.op_list.append(OpLeftInvariant(bound_step, child, True))
+
     def do_step_replay(self):
         'do a refinement replay step'
 
@@ -140,6 +155,8 @@ class DeaggregationManager(Freezable):
                 parent_left_invariant = True
 
             for child in self.deagg_children:
+                self.check_time_bound(child, op)
+
                 if not child.node_left_invariant():
                     child.replay_op(self.deagg_parent.op_list, self.replay_step)
                 else:
-- 
2.43.0


From 81f0682c592bda5bacf67df14fab2c9d8d438475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 30/36] fix: apply the approximation model to replayed states

Replayed sets were only advanced at discrete steps, so behaviour between steps
that reaches an error was lost when a set was deaggregated.
---
 hylaa/deaggregation.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index d67f997..095f720 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -7,6 +7,7 @@ Nov 2018
 
 from collections import deque, namedtuple
 
+from hylaa.settings import HylaaSettings
 from hylaa.util import Freezable
 from hylaa.timerutil import Timers
 
@@ -91,6 +92,21 @@ class DeaggregationManager(Freezable):
         self.aggdag.core.print_verbose("Pausing due to start of do_step_replay()")
         self.aggdag.core.plotman.pause()
 
+        for child in self.deagg_children:
+            self.apply_approx_model(child)
+
+    def apply_approx_model(self, child):
+        '''apply the approximation model (if used) to the initial states of a child, as when popping a state'''
+
+        approx_model = self.aggdag.settings.approx_model
+        state = child.stateset
+
+        if approx_model != HylaaSettings.APPROX_NONE and not state.mode.is_error():
+            if self.aggdag.core.intersect_invariant(state, add_ops_to_aggdag=False):
+                state.apply_approx_model(approx_model)
+            else:
+                child.op_list.append(OpLeftInvariant(0, child, False))
+
     def check_time_bound(self, child, op):
         '''stop the passed-in child if it reaches the time bound before the passed-in operation is replayed
 
-- 
2.43.0


From 1d7512445aa278b8871cce831ff879357bd09230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 31/36] fix: return the vertices of every plotted state from
 get_verts_list

It returned the stored tuple of the first state (vertices, state, step, text).
---
 hylaa/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 527a51f..8e4614f 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -53,9 +53,9 @@ class PlotData(Freezable):
         self.freeze_attrs()
 
     def get_verts_list(self, mode_name, plot_index=0):
-        'get a list of lists for the passed-in mode'
+        'get a list of vertex lists, one for each state plotted in the passed-in mode'
 
-        return self.mode_to_obj_list[plot_index][mode_name][0]
+        return [obj[0] for obj in self.mode_to_obj_list[plot_index][mode_name]]
 
     def add_state(self, state, verts, plot_index):
         'add a plotted state'
-- 
2.43.0


From 8d8b7e2b5e3e42aff2742975b4db7ad63f5d6600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 32/36] fix: de-aggregate plotted states that are markers in
 some subplots

---
 hylaa/plotutil.py |  7 ++++++-
 hylaa/stateset.py | 11 ++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index a99b555..70cef25 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -738,7 +738,12 @@ class PlotManager(Freezable):
 
                 for state in states:
                     if isinstance(state, list):
-                        verts = state[subplot] # list of vertices
+                        # list of vertices, None if there is no polygon in this subplot
+                        verts = state[subplot] if subplot < len(state) else None
+
+                        if verts is None:
+                            continue
+
                         verts_list.append(verts)
                     else:
                         verts = state.verts(self, subplot=subplot)
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index 2792c7d..d2c2867 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -212,8 +212,8 @@ class StateSet(Freezable):
         '''
         delete a plotted matplotlib Path object for this stateset.
 
-        returns a list of verts (one for each subplot) that was deleted, or None if stateset was
-        already deleted (can happen with recursive deaggregation)
+        returns a list of verts (one for each subplot) that was deleted (verts is None for subplots where the
+        state was not drawn as a polygon), or None if stateset was already deleted (can happen with recursive deaggregation)
         '''
 
         rv = []
@@ -227,7 +227,12 @@ class StateSet(Freezable):
             verts = [(0, 0), (0, 0)]
 
             # for every subplot
-            for path_list, index in l:
+            for pair in l:
+                if not pair: # the state was not drawn as a polygon in this subplot
+                    rv.append(None)
+                    continue
+
+                path_list, index = pair
                 rv.append(path_list[index].vertices)
 
                 # this is what actually removes it from the plot
-- 
2.43.0


From 33adfaaf59d8d0f1990be5518fe3d6c253e6f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 33/36] fix: do not plot the last state again in the extra
 frames of a video

---
 hylaa/plotutil.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 70cef25..acd0260 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -803,9 +803,12 @@ class PlotManager(Freezable):
         else:
             Timers.tic("frame")
 
-            for ds in self.shapes:
-                ds.set_cur_state(None)
-                ds.set_gray_state(None)
+            was_finished = self.core.is_finished()
+
+            if not was_finished:
+                for ds in self.shapes:
+                    ds.set_cur_state(None)
+                    ds.set_gray_state(None)
 
             for _ in range(self.settings.draw_stride):
                 self.core.do_step()
@@ -819,7 +822,8 @@ class PlotManager(Freezable):
                     self.pause()
                     break
 
-            if self.core.aggdag.get_cur_state() is not None:
+            # in the extra frames of a video there is no new state, so the last one should not be added again
+            if not was_finished and self.core.aggdag.get_cur_state() is not None:
                 self.plot_current_state()
 
             if self.core.sim_states is not None:
-- 
2.43.0


From 983be01bce74ac952d4d852859e83f687488caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 34/36] fix: clicking outside of all states in an interactive
 plot

---
 hylaa/plotutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index acd0260..5180729 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -927,7 +927,8 @@ class PlotManager(Freezable):
                 # check which polygon you're in
                 d = self.core.result.plot_data.get_plot_data(x, y, subplot)
 
-                print(d[1:])
+                if d is not None: # None if no set of states was clicked
+                    print(d[1:])
 
         if self.settings.plot_mode == PlotSettings.PLOT_INTERACTIVE:
             # do one frame
-- 
2.43.0


From 89f9a0e86299ff8f1dae5c836850ca8d298e6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 35/36] fix: modes without own dynamics but with inputs are not
 stationary

---
 hylaa/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index e8d7084..06507a8 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -239,8 +239,9 @@ class Core(Freezable):
                     cur_state.step()
                     self.check_guards() # check guards here, before doing an invariant intersection
 
-                    # if the current mode has zero dynamics, remove it here
-                    if cur_state.mode.a_csr.nnz == 0 and self.settings.skip_zero_dynamics_modes:
+                    # if the current mode has zero dynamics (and no inputs), remove it here
+                    if cur_state.mode.a_csr.nnz == 0 and cur_state.mode.b_csr is None and \
+                            self.settings.skip_zero_dynamics_modes:
                         self.print_normal("State in mode '{}' with zero dynamics, skipping remaining steps".format( \
                             cur_state.mode.name))
                         self.aggdag.cur_state_left_invariant()
-- 
2.43.0


From 0728dafd3196ef8e40a306f1c20e2fd729634812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 36/36] fix: constraints on previous steps apply to the inputs
 of those steps

---
 hylaa/lpinstance.py |  3 +++
 hylaa/lputil.py     | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 69739f7..c71a7a8 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -42,6 +42,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         self.basis_mat_pos = None # 2-tuple, row, column (NOT X/Y)
         self.cur_vars_offset = None
         self.input_effects_offsets = None # None or 2-tuple, row of input constraints / col of accumulated input effects
+        self.init_constraint_rows = [] # rows over the initial variables and inputs, see lputil.add_init_constraint()
 
         # internal bookkeeping
         self.obj_cols = [] # columns in the LP with an assigned objective coefficient
@@ -64,6 +65,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         rv.names = self.names.copy()
 
         rv.set_reach_vars(self.dims, self.basis_mat_pos, self.cur_vars_offset, self.input_effects_offsets)
+        rv.init_constraint_rows = self.init_constraint_rows.copy()
         rv.obj_cols = self.obj_cols.copy()
 
         return rv
@@ -85,6 +87,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         self.basis_mat_pos = basis_mat_pos
         self.cur_vars_offset = cur_vars_offset #num_cols - dims # right-most variables
         self.input_effects_offsets = input_effects_offsets
+        self.init_constraint_rows = []
 
         self._create_bm_indices()
 
diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 459035f..e3085cd 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -300,6 +300,15 @@ def add_input_effects_matrix(lpi, input_mat, mode, lgg_beta=None):
 
     lpi.set_constraints_csc(csc, offset=(0, pre_cols))
 
+    # the first input columns are the ones of the most recent step, so with another step, the constraints on the
+    # state at the previous steps refer to the input columns one step to the right
+    first_input_col = lpi.input_effects_offsets[1] + lpi.dims
+
+    for row_index in lpi.init_constraint_rows:
+        row = lpi.get_row(row_index)
+        row.indices[row.indices >= first_input_col] += num_cols
+        lpi.set_constraints_csr(row, offset=(row_index, 0))
+
 def check_intersection(lpi, lc, tol=1e-13):
     '''check if there is an intersection between the LP constriants and the LinearConstraint object lc
 
@@ -394,6 +403,9 @@ def add_init_constraint(lpi, vec, rhs, basis_matrix=None, input_effects_list=Non
 
     lpi.set_constraints_csr(csr_row_mat, offset=(row_index, 0))
 
+    if row_index not in lpi.init_constraint_rows:
+        lpi.init_constraint_rows.append(row_index)
+
     return row_index
 
 def try_replace_init_constraint(lpi, old_row_index, direction, rhs, basis_mat=None, input_effects_list=None):
@@ -440,6 +452,7 @@ def try_replace_init_constraint(lpi, old_row_index, direction, rhs, basis_mat=No
             rows = lpi.get_num_rows()
 
             lpi.set_constraints_csr(old_constraint, offset=(rows - 1, 0))
+            lpi.init_constraint_rows.append(rows - 1)
             is_stronger = False
 
     return new_row_index, is_stronger
-- 
2.43.0

