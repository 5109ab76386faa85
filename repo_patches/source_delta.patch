From 943ff9f5b43066657d3440116dc02821178802ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 01/20] fix: RAMP stiffness derivative had the wrong sign in
 the numerator

---
 scikit-topt/sktopt/core/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/derivatives.py b/scikit-topt/sktopt/core/derivatives.py
index bcea868..3a33365 100644
--- a/scikit-topt/sktopt/core/derivatives.py
+++ b/scikit-topt/sktopt/core/derivatives.py
@@ -59,7 +59,7 @@ def dE_drho_ramp(rho, E0, Emin, p):
     E(rho) = Emin + (E0 - Emin) * rho / (1 + p * (1 - rho))
     """
     denom = 1.0 + p * (1.0 - rho)
-    return (E0 - Emin) * (denom - p * rho) / (denom ** 2)
+    return (E0 - Emin) * (denom + p * rho) / (denom ** 2)
 
 
 def dC_drho_ramp(rho, strain_energy, E0, Emin, p):
@@ -75,7 +75,7 @@ def dE_drho_ramp_inplace(rho, out, E0, Emin, p):
     """
     np.copyto(out, rho)
     denom = 1.0 + p * (1.0 - rho)
-    np.copyto(out, (E0 - Emin) * (denom - p * rho) / (denom ** 2))
+    np.copyto(out, (E0 - Emin) * (denom + p * rho) / (denom ** 2))
 
 
 def dC_drho_ramp_inplace(rho, strain_energy, out, E0, Emin, p):
-- 
2.43.0


From 262efd61139cc3193d43f5b4f8e94a29cf412f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 02/20] fix: sawtooth schedule lost the reset at a cycle start
 to float rounding

---
 scikit-topt/sktopt/tools/scheduler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/tools/scheduler.py b/scikit-topt/sktopt/tools/scheduler.py
index 32d354c..26e3f92 100644
--- a/scikit-topt/sktopt/tools/scheduler.py
+++ b/scikit-topt/sktopt/tools/scheduler.py
@@ -253,10 +253,12 @@ def schedule_sawtooth_decay(
 
     it0 = it - 1
     total0 = total
-    step_size = total0 / num_steps
-    step_index = int(it0 // step_size)
-    local_index = it0 - step_index * step_size
-    alpha = min(local_index / step_size, 1.0)
+    # position in units of 1/num_steps iterations: exact for integers, so the
+    # reset is not lost to rounding when a cycle starts
+    scaled = it0 * num_steps
+    step_index = int(scaled // total0)
+    local_index = scaled - step_index * total0
+    alpha = min(local_index / total0, 1.0)
 
     return (1 - alpha) * initial_value + alpha * target_value
 
-- 
2.43.0


From 7a986ddd0d984b6f45db4eeae35e7276767110f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 03/20] fix: OC update produced NaN densities for positive
 sensitivities

---
 scikit-topt/sktopt/core/optimizers/oc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 7ffc448..cf0d3e3 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -49,6 +49,7 @@ def bisection_with_physical_volume(
     vol_error = 0.0
     while True:
         np.negative(dC, out=scaling_rate)
+        np.maximum(scaling_rate, 0.0, out=scaling_rate)
         scaling_rate /= (lmid + eps)
         np.power(scaling_rate, eta, out=scaling_rate)
         np.clip(
-- 
2.43.0


From a0764f91f7493c128903355f9f1a6bdac3773643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 04/20] fix: LogMOC restart failed because the running scale
 was never initialised

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index d003283..191d03a 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -81,6 +81,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         self.recorder.add("dV_chain", plot_type="min-max-mean-std", ylog=True)
         self.recorder.add("volume_chain_scale", ylog=True)
         self.lambda_v = cfg.lambda_v
+        self.running_scale = 0
         self._dL_buffer = None
         self._dV_chain_design = None
         self._dV_projected_full = None
-- 
2.43.0


From 4d7a598ea33518b55a0b6d7e45c8ec3611d360a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 05/20] fix: optimization crashed when max_iters is smaller
 than record_times

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a3377d8..0c63ed7 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1185,7 +1185,7 @@ class DensityMethod(DensityMethodBase):
 
             if any(
                 (
-                    iter_num % (cfg.max_iters // cfg.record_times) == 0,
+                    iter_num % max(1, cfg.max_iters // cfg.record_times) == 0,
                     iter_num == 1,
                     (conv_rho and conv_kkt),
                     (iter_num == iter_limit - 1)
-- 
2.43.0


From ee59ea03801b3edec79477e049edc55776d1b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 06/20] fix: restart took leftover files such as
 000020-rho.npz.tmp for the newest checkpoint

---
 scikit-topt/sktopt/core/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index f7ad45d..a195609 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -11,7 +11,7 @@ def find_latest_iter_file(dst_path: str):
     latest_file = None
 
     for fname in os.listdir(dst_path):
-        match = pattern.match(fname)
+        match = pattern.fullmatch(fname)
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
-- 
2.43.0


From dcac8e38ef233e94065afdd7d49e2042d9cafe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 07/20] fix: element lookup used the table of a deleted mesh
 whose id was reused

---
 scikit-topt/sktopt/mesh/utils.py | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index ee1067f..9a7bbee 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -198,34 +198,15 @@ def get_elements_by_nodes(
         include any of the target nodes.
     """
 
-    # Initialize cache once
-    if not hasattr(get_elements_by_nodes, "_cache"):
-        get_elements_by_nodes._cache = {}
-
-    mesh_id = id(mesh)
-    if mesh_id not in get_elements_by_nodes._cache:
-        # Build: node index → set of element indices
-        node_to_elements = defaultdict(set)
-        # mesh.t.T: shape = (n_elements, nodes_per_element)
-        for e, nodes in enumerate(mesh.t.T):
-            for n in nodes:
-                node_to_elements[n].add(e)
-        get_elements_by_nodes._cache[mesh_id] = node_to_elements
-
-    node_to_elements = get_elements_by_nodes._cache[mesh_id]
-
     # Normalize target_nodes
     if isinstance(target_nodes, np.ndarray):
         all_target_nodes = np.unique(target_nodes)
     else:
         all_target_nodes = np.unique(np.concatenate(target_nodes))
 
-    # Accumulate matching element indices
-    elems = set()
-    for node in all_target_nodes:
-        elems.update(node_to_elements.get(node, []))
-
-    return np.ascontiguousarray(np.array(sorted(elems), dtype=np.int32))
+    # elements with at least one target node
+    touched = np.isin(mesh.t, all_target_nodes).any(axis=0)
+    return np.ascontiguousarray(np.flatnonzero(touched).astype(np.int32))
 
 
 def build_element_adjacency_matrix_fast(mesh):
-- 
2.43.0


From 8064906383f34e083ef178c92c853b9263da22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 08/20] fix: several Dirichlet regions crashed the task unless
 equally large

---
 scikit-topt/sktopt/mesh/task_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 8b1c8c3..afe66c5 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -154,7 +154,7 @@ class FEMDomain():
                         for nodes in dirichlet_nodes
                     ]
 
-                # dirichlet_dofs = np.concatenate(dirichlet_dofs)
+                dirichlet_dofs = np.unique(np.concatenate(dirichlet_dofs))
                 # dirichlet_nodes = np.concatenate(dirichlet_nodes)
             elif isinstance(dirichlet_nodes, np.ndarray):
                 dofs = basis.get_dofs(nodes=dirichlet_nodes)
@@ -164,7 +164,7 @@ class FEMDomain():
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
 
             dirichlet_elements = utils.get_elements_by_nodes(
-                basis.mesh, [dirichlet_nodes]
+                basis.mesh, dirichlet_nodes
             )
         else:
             dirichlet_dofs = None
-- 
2.43.0


From 5c8787f1d5eaf9a0b0167718ba23529d3ca85fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 09/20] fix: free elements were looked up with dof numbers as
 node numbers

---
 scikit-topt/sktopt/mesh/task_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index afe66c5..fd4715e 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -232,8 +232,8 @@ class FEMDomain():
             if len(valid) > 0 else np.array([], dtype=int)
 
         free_dofs = setdiff1d(np.arange(basis.N), dirichlet_dofs)
-        free_elements = utils.get_elements_by_nodes(
-            basis.mesh, [free_dofs]
+        free_elements = np.flatnonzero(
+            np.isin(basis.element_dofs, free_dofs).any(axis=0)
         )
         elements_volume = composer.get_elements_volume(basis.mesh)
         print(
-- 
2.43.0


From b85b1e558bbc40d3e069eaccb6cd12013f80eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 10/20] fix: exported condition labelled every node when a
 boundary kind is absent

---
 scikit-topt/sktopt/mesh/task_common.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index fd4715e..a7c3cba 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -372,9 +372,14 @@ class FEMDomain():
         # Points (shape: [n_nodes, dim])
         points = mesh.p.T
         node_colors_df = np.zeros(mesh.p.shape[1], dtype=int)
-        node_colors_df[self.neumann_nodes_all] = 1
-        node_colors_df[self.dirichlet_nodes] = 2
-        node_colors_df[self.robin_nodes] = 3
+        for color, nodes in enumerate([
+            self.neumann_nodes, self.dirichlet_nodes, self.robin_nodes
+        ], start=1):
+            if nodes is None:
+                continue
+            if isinstance(nodes, list):
+                nodes = np.concatenate(nodes)
+            node_colors_df[nodes] = color
         point_outputs = dict()
         point_outputs["node_color"] = node_colors_df
 
-- 
2.43.0


From 671c34d5708c0cfcd7ee9ed1dbda3c2364a4eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 11/20] fix: all densities became solid when a task without
 loaded elements designs the Dirichlet region

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 0c63ed7..536ddac 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -738,7 +738,8 @@ class DensityMethod(DensityMethodBase):
             iter_end = cfg.max_iters + 1
 
         if cfg.design_dirichlet is True:
-            rho[tsk.neumann_elements] = 1.0
+            if tsk.neumann_elements is not None:
+                rho[tsk.neumann_elements] = 1.0
         else:
             rho[tsk.dirichlet_neumann_elements] = 1.0
         rho[tsk.fixed_elements] = 1.0
@@ -1129,7 +1130,8 @@ class DensityMethod(DensityMethodBase):
                 )
             rho[tsk.design_elements] = rho_design_eles
             if cfg.design_dirichlet is True:
-                rho[tsk.neumann_elements] = 1.0
+                if tsk.neumann_elements is not None:
+                    rho[tsk.neumann_elements] = 1.0
             else:
                 rho[tsk.dirichlet_neumann_elements] = 1.0
 
-- 
2.43.0


From 27abd06327044dbe7ffbaf0af4c90448dc43c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 12/20] fix: hexahedron volumes were 5/6 of the cell (repeated
 tetrahedron, foreign node numbering)

---
 scikit-topt/sktopt/fea/composer.py | 72 ++++++++++++++----------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 547a805..7ad2b2d 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -190,7 +190,7 @@ def _tet_volume_numba(p0, p1, p2, p3):
 
 def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
     """
-    Compute volume of Hex elements by decomposing into 6 tetrahedra.
+    Compute volume of Hex elements by decomposing into 5 tetrahedra.
 
     Parameters
     ----------
@@ -210,37 +210,34 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
     for e in prange(n_elements):
         n = t_conn[:, e]
 
-        #   7--------6
+        # scikit-fem numbering
+        #   4--------7
         #  /|       /|
-        # 4--------5 |
+        # 1--------5 |
         # | |      | |
-        # | 3------|-2
+        # | 2------|-6
         # |/       |/
-        # 0--------1
+        # 0--------3
         vol = 0.0
         vol += _tet_volume_numba(
-            p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[2]], p_coords[:, n[1]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[3]], p_coords[:, n[6]],
+            p_coords[:, n[2]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[3]], p_coords[:, n[5]],
+            p_coords[:, n[7]], p_coords[:, n[1]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[2]], p_coords[:, n[7]],
+            p_coords[:, n[4]], p_coords[:, n[1]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[3]], p_coords[:, n[2]],
+            p_coords[:, n[7]], p_coords[:, n[1]]
         )
 
         elements_volume[e] = vol
@@ -251,7 +248,7 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
 @njit(parallel=True)
 def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
     """
-    Compute volume of Hex elements by decomposing into 6 tetrahedra.
+    Compute volume of Hex elements by decomposing into 5 tetrahedra.
 
     Parameters
     ----------
@@ -271,39 +268,36 @@ def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
     for e in prange(n_elements):
         n = t_conn[:, e]
 
-        # Tetra 6 division
-        #   7--------6
+        # Tetra 5 division
+        # scikit-fem numbering
+        #   4--------7
         #  /|       /|
-        # 4--------5 |
+        # 1--------5 |
         # | |      | |
-        # | 3------|-2
+        # | 2------|-6
         # |/       |/
-        # 0--------1
+        # 0--------3
 
         vol = 0.0
         vol += _tet_volume_numba(
-            p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[2]], p_coords[:, n[1]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[3]], p_coords[:, n[6]],
+            p_coords[:, n[2]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[3]], p_coords[:, n[5]],
+            p_coords[:, n[7]], p_coords[:, n[1]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[2]], p_coords[:, n[7]],
+            p_coords[:, n[4]], p_coords[:, n[1]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[3]], p_coords[:, n[2]],
+            p_coords[:, n[7]], p_coords[:, n[1]]
         )
 
         elements_volume[e] = vol
-- 
2.43.0


From d1e94f46a0d41eede295dda195de7443514edc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 13/20] fix: turning an inverted hexahedron twisted it

---
 scikit-topt/sktopt/mesh/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 9a7bbee..abbde80 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -40,16 +40,18 @@ def fix_hexahedron_orientation(t, p):
         hex_nodes = t_fixed[:, e]
         coords = p[:, hex_nodes]  # shape (3, 8)
 
-        # Compute Jacobian determinant at natural coordinate center
-        # Ref: Hex element master nodes index: [0,1,2,3,4,5,6,7]
-        v1 = coords[:, 1] - coords[:, 0]  # x-direction
-        v2 = coords[:, 3] - coords[:, 0]  # y-direction
-        v3 = coords[:, 4] - coords[:, 0]  # z-direction
+        # Jacobian determinant from the edges at node 0
+        # (scikit-fem numbering: nodes 1, 2, 3 are its neighbours)
+        v1 = coords[:, 1] - coords[:, 0]
+        v2 = coords[:, 3] - coords[:, 0]
+        v3 = coords[:, 2] - coords[:, 0]
         jac_det = np.dot(np.cross(v1, v2), v3)
 
         if jac_det < 0:
-            # Swap two nodes to flip orientation (commonly swap node 1 and 3)
+            # Mirror the cell: swap the neighbours 1 and 3 of node 0 and
+            # the face diagonals 4 and 6 they span with node 2
             t_fixed[1, e], t_fixed[3, e] = t_fixed[3, e], t_fixed[1, e]
+            t_fixed[4, e], t_fixed[6, e] = t_fixed[6, e], t_fixed[4, e]
 
     return t_fixed
 
-- 
2.43.0


From 0397508522973f710613aaead4da9e86580d5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 14/20] fix: elasticity tasks ignored the mesh tags
 dirichlet_1, dirichlet_2, ...

---
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 52f4ac4..88892c6 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -281,7 +281,7 @@ class LinearElasticity(FEMDomain):
         design_elements = basis.mesh.subdomains["design"]
         keys = basis.mesh.boundaries.keys()
         dirichlet_keys = sorted(
-            [k for k in keys if re.match(r"dirichlete_\d+$", k)],
+            [k for k in keys if re.match(r"dirichlet_\d+$", k)],
             key=lambda x: int(re.search(r"\d+$", x).group())
         )
         if dirichlet_keys:
-- 
2.43.0


From d856da234af24604f936be35d9821cd42d982e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 15/20] fix: a single Dirichlet region crashed the heat task

---
 scikit-topt/sktopt/mesh/task_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index a7c3cba..8bc49ee 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -131,7 +131,10 @@ class FEMDomain():
                     assert isinstance(dirichlet_dir, list)
                     assert len(dirichlet_nodes) == len(dirichlet_dir)
             elif isinstance(dirichlet_nodes, np.ndarray):
-                assert isinstance(dirichlet_dir, str)
+                if dirichlet_dir is None:
+                    assert isinstance(dirichlet_values, float)
+                else:
+                    assert isinstance(dirichlet_dir, str)
                 # assert dirichlet_dir in _lit_bc
             else:
                 raise ValueError("dirichlet_nodes should be list or np.ndarray")
@@ -158,7 +161,7 @@ class FEMDomain():
                 # dirichlet_nodes = np.concatenate(dirichlet_nodes)
             elif isinstance(dirichlet_nodes, np.ndarray):
                 dofs = basis.get_dofs(nodes=dirichlet_nodes)
-                dirichlet_dofs = dofs.all() if dirichlet_dir == 'all' \
+                dirichlet_dofs = dofs.all() if dirichlet_dir in (None, 'all') \
                     else dofs.nodal[dirichlet_dir]
             else:
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
-- 
2.43.0


From 8aedb6975bbc7c1631a5747d6125293d52e67801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 16/20] fix: nodal densities of the heat model averaged the
 wrong elements

---
 scikit-topt/sktopt/fea/solver_heat.py | 4 ++--
 scikit-topt/sktopt/mesh/task_heat.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 037a157..6708892 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -607,7 +607,7 @@ def _element_to_nodal_average(
 
     rho_nodal = np.zeros(nvert, dtype=float)
     count = np.zeros(nvert, dtype=float)
-    np.add.at(rho_nodal, t.ravel(), np.repeat(rho, nloc))
+    np.add.at(rho_nodal, t.ravel(), np.tile(rho, nloc))
     np.add.at(count, t.ravel(), 1.0)
     rho_nodal /= np.maximum(count, 1.0)
     return rho_nodal, count
@@ -732,7 +732,7 @@ class FEM_SimpLinearHeatConduction():
 
             rho_nodal = np.zeros(nvert, dtype=float)
             count = np.zeros(nvert, dtype=float)
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, k))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, k))
             np.add.at(count,     t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1.0)
 
diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index bad0ae5..19ed3fb 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -90,7 +90,7 @@ def assemble_surface_robin(
             rho_nodal = np.zeros(basis.mesh.nvertices)
             count = np.zeros(basis.mesh.nvertices)
             t = basis.mesh.t
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, t.shape[0]))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, t.shape[0]))
             np.add.at(count, t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1)
         else:
-- 
2.43.0


From efc8df4eb3c3ddfc1367bbf9843af7675393c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:23 +0000
Subject: [PATCH 17/20] fix: heat load cases with different Dirichlet regions
 were solved with the first region's matrix

---
 scikit-topt/sktopt/fea/solver_heat.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 6708892..e464afc 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -157,6 +157,19 @@ def solve_heat_system_multi(
 
     D0 = dirichlet_dofs_list[0]
     val0 = dirichlet_values_list[0]
+    if not all([
+        np.array_equal(D_i.flatten(), D0.flatten())
+        for D_i in dirichlet_dofs_list
+    ]):
+        # the enforced matrix depends on the Dirichlet set of the load case
+        for i, (D_i, val_i) in enumerate(
+            zip(dirichlet_dofs_list, dirichlet_values_list)
+        ):
+            solve_heat_system_multi(
+                K_csr, emit, [D_i], [val_i], u_all[:, i:i + 1], solver_config
+            )
+        return K_csr
+
     K_e, _ = skfem.enforce(
         K_csr,
         emit,
-- 
2.43.0


From eaf7976d10aaffabd6db0add6a2f5a2c82e43739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:02 +0000
Subject: [PATCH 18/20] fix: RAMP heat models used the SIMP sensitivity

---
 scikit-topt/sktopt/fea/solver_heat.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index e464afc..d7bd014 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -952,10 +952,15 @@ class FEM_SimpLinearHeatConduction():
         n_elem, n_loads = energy.shape
         grad_all = np.zeros((n_elem, n_loads), dtype=float)
 
-        for i in range(n_loads):
-            from sktopt.core import derivatives
+        from sktopt.core import derivatives
 
-            grad_all[:, i] = derivatives.dC_drho_simp(
+        dC_drho_func = (
+            derivatives.dC_drho_ramp
+            if self.density_interpolation is composer.ramp_interpolation
+            else derivatives.dC_drho_simp
+        )
+        for i in range(n_loads):
+            grad_all[:, i] = dC_drho_func(
                 rho, energy[:, i], self.k_max, self.k_min, p
             )
 
-- 
2.43.0


From 3f5dccb8cb7a5b29fdb516c87e61e0c78d1073b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:38 +0000
Subject: [PATCH 19/20] fix: keep registered histories without entries when
 histories are loaded

---
 scikit-topt/sktopt/tools/history.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 519a932..3637652 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -683,6 +683,11 @@ class HistoryCollection():
                     data=data_list
                 )
 
+        # Registered histories without entries are not in the file
+        for name, hist in self.histories.items():
+            if name not in new_histories and not hist.exists():
+                new_histories[name] = hist
+
         # Replace histories with updated ones
         self.histories = new_histories
 
-- 
2.43.0


From e1e5ce64e187558fdb050e13f19acf17118371e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:12 +0000
Subject: [PATCH 20/20] fix: schedules of an imported configuration are
 schedules again

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 536ddac..2f7e155 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -317,6 +317,10 @@ class DensityMethodConfig():
             data = json.load(f)
         # Drop legacy keys that may linger in old configs.
         data.pop("record_timing", None)
+        # Schedules are stored as plain dictionaries
+        for key, value in data.items():
+            if isinstance(value, dict) and "scheduler_type" in value:
+                data[key] = tools.SchedulerConfig(**value)
         return cls(**data)
 
     def export(self, path: str):
-- 
2.43.0

