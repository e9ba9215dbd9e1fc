From 92fb9434137c2715d9ffe61a4b842372b2311227 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 01/21] fix: l2_projector leaves the space's dof_shift alone
 when the projection fails

The shift was set to zero for the duration of the assembly and put back only
on success; an exception (for instance from a user function) left the space
with shift zero, and concurrent users of the space saw the zero shift.
---
 src/postprocess/projectors.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index 963a091..7c3915a 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -10,10 +10,6 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
     rg = np.zeros(n_dof_g)
     alpha = np.zeros(n_dof_g)
 
-    # local projection
-    n_dof_shift = fe_space.dof_shift
-    fe_space.dof_shift = 0
-
     # Assembler
     st = time.time()
     A = PETSc.Mat()
@@ -28,7 +24,8 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
 
     def scatter_form_data(A, i, weak_form):
         # destination indexes
-        dest = weak_form.space.destination_indexes(i)
+        # local projection: the space's own shift is taken out
+        dest = weak_form.space.destination_indexes(i) - fe_space.dof_shift
         dest += dof_shift
         alpha_l = alpha[dest]
         r_el, j_el = weak_form.evaluate_form(i, alpha_l)
@@ -57,7 +54,6 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
     name = list(fe_space.discrete_spaces.keys())[0]
     n_els = len(fe_space.discrete_spaces[name].elements)
     [scatter_form_data(A, i, weak_form) for i in range(n_els)]
-    fe_space.dof_shift = n_dof_shift
 
     A.assemble()
 
-- 
2.43.0


From d21b7f1207ea994b973df821a6736614ff9c208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 02/21] fix: rebuilding a space without boundary tags drops its
 old boundary elements

build_boundary_structures returned early for an empty tag list and kept the
boundary elements of the previous build.
---
 src/spaces/discrete_space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spaces/discrete_space.py b/src/spaces/discrete_space.py
index 76b2eac..65daec8 100644
--- a/src/spaces/discrete_space.py
+++ b/src/spaces/discrete_space.py
@@ -60,6 +60,9 @@ class DiscreteSpace:
 
     def build_boundary_structures(self, bc_physical_tags=[None]):
         if len(bc_physical_tags) == 0:
+            self.bc_elements = []
+            self.bc_element_ids = []
+            self.id_to_bc_element = {}
             return
         self._build_bc_elements(bc_physical_tags)
 
-- 
2.43.0


From 77d087b4f51b45d22db8bc23b2581dad26730db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 03/21] fix: scale 1d vector-family bases per point instead of
 per basis function

The Piola factor was broadcast along the basis-function axis, which fails as
soon as the number of points differs from the number of functions (for example
an RT field beside a higher-order Lagrange field in 1d).
---
 src/basis/finite_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/finite_element.py b/src/basis/finite_element.py
index 08088ce..84e6300 100644
--- a/src/basis/finite_element.py
+++ b/src/basis/finite_element.py
@@ -177,8 +177,8 @@ class FiniteElement:
         ]:
             # TODO: implement covariant Piola transformation for  types (N1E, N2E)
             # Contravariant Piola transformation for 1d cells with vector families
-            phi_mapped[:, :, 0] = (1.0 / det_jac) * phi_mapped[:, :, 0] * (
-                    jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            phi_mapped[:, :, 0] = (1.0 / det_jac)[:, np.newaxis] * phi_mapped[:, :, 0] * (
+                    jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))[:, np.newaxis]
             if phi_tab[0].shape == phi_mapped.shape:
                 phi_tab[0] = phi_mapped
 
-- 
2.43.0


From dc1e315e7513f3871ae763e7020bc1c57e6e81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 04/21] fix: refuse a truncated .msh file

meshio accepts some prefixes of a .msh file (a last number cut short, a missing
end marker) and the mesh then silently differs from the one that was written.
---
 src/mesh/mesh.py     |  4 ++++
 src/mesh/msh_file.py | 25 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+)
 create mode 100644 src/mesh/msh_file.py

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 50812da..83baa7e 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -8,6 +8,7 @@ import numpy as np
 from topology.domain import Domain
 from mesh.mesh_cell import MeshCell, barycenter, rotate_vector
 from mesh.mesh_coloring import coloring_mesh_by_co_dimension
+from mesh.msh_file import incomplete_msh_reason
 
 
 class Mesh:
@@ -16,6 +17,9 @@ class Mesh:
         self.graph = None
         self.cells = np.array([], dtype=MeshCell)
         self.duplicated_ids = {}
+        reason = incomplete_msh_reason(file_name)
+        if reason is not None:
+            raise ValueError("Mesh:: incomplete mesh file " + str(file_name), reason)
         self.conformal_mesh = meshio.read(file_name)
         self.points = self.conformal_mesh.points
         self.cell_data = {}
diff --git a/src/mesh/msh_file.py b/src/mesh/msh_file.py
new file mode 100644
index 0000000..8c83218
--- /dev/null
+++ b/src/mesh/msh_file.py
@@ -0,0 +1,25 @@
+import os
+
+
+def incomplete_msh_reason(file_name):
+    """Why a .msh file is not whole: None for a complete file (or another format)."""
+    if not str(file_name).endswith(".msh") or not os.path.isfile(file_name):
+        return None
+    open_section = None
+    sections = []
+    with open(file_name, "rb") as file:
+        for line in file:
+            if not line.startswith(b"$"):
+                continue
+            mark = line.strip()
+            if open_section is None:
+                open_section = mark[1:]
+            elif mark == b"$End" + open_section:
+                sections.append(open_section)
+                open_section = None
+    if open_section is not None:
+        return "section " + open_section.decode(errors="replace") + " is not closed"
+    for required in [b"MeshFormat", b"Nodes", b"Elements"]:
+        if not any(section.endswith(required) for section in sections):
+            return "section " + required.decode() + " is missing"
+    return None
-- 
2.43.0


From 972b9ba3f907ad76d91fe9da78d9870bc79eb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 05/21] fix: mesh generation starts from a clean gmsh session

A generation or write that failed left the gmsh session open, and every later
generation in the process failed on (or mixed with) the entities of that model.
---
 src/mesh/conformal_mesher.py | 4 ++++
 src/mesh/discrete_domain.py  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index 17b2e34..7a2d00e 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -499,6 +499,8 @@ class ConformalMesher:
             self.fracture_network.shift_point_ids(max_point_id)
 
     def generate_from_domain(self, lc, n_refinements=0):
+        if gmsh.isInitialized():  # left open by a failed generation or write
+            gmsh.finalize()
         gmsh.initialize()
         gmsh.option.setNumber("General.Terminal", 0)
         self.lc = lc
@@ -516,6 +518,8 @@ class ConformalMesher:
         # aka = 0
 
     def generate(self, lc, n_refinments=0):
+        if gmsh.isInitialized():  # left open by a failed generation or write
+            gmsh.finalize()
         gmsh.initialize()
         self.lc = lc
         for tag, point in enumerate(self.points):
diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 3c95c63..55e6b5a 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -321,6 +321,8 @@ class DiscreteDomain:
                     )
 
     def generate_mesh(self, mesh_arguments: dict = {}):
+        if gmsh.isInitialized():  # left open by a failed generation or write
+            gmsh.finalize()
         gmsh.initialize()
         gmsh.option.setNumber("General.Terminal", 0)
         self.mesh_arguments = mesh_arguments
-- 
2.43.0


From bcdfb1aa2cc3e9e9b7bedc1bb40a6b6170f6c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 06/21] fix: write_mesh reports a mesh file that was not
 written completely

gmsh.write returns normally when the disk is full and leaves a truncated file.
---
 src/mesh/conformal_mesher.py | 4 ++++
 src/mesh/discrete_domain.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index 7a2d00e..13af0ce 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -1,6 +1,7 @@
 import gmsh
 import numpy as np
 
+from mesh.msh_file import incomplete_msh_reason
 from topology.domain import Domain
 
 
@@ -493,6 +494,9 @@ class ConformalMesher:
 
     def write_mesh(self, file_name):
         gmsh.write(file_name)
+        reason = incomplete_msh_reason(file_name)
+        if reason is not None:
+            raise OSError("write_mesh:: incomplete mesh file " + file_name, reason)
         gmsh.finalize()
         if self.fracture_network is not None:
             max_point_id = -len(self.geometry_builder.points)
diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 55e6b5a..06ba3c1 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -1,6 +1,7 @@
 import gmsh
 import numpy as np
 
+from mesh.msh_file import incomplete_msh_reason
 from topology.domain import Domain
 
 
@@ -341,4 +342,7 @@ class DiscreteDomain:
 
     def write_mesh(self, file_name):
         gmsh.write(file_name)
+        reason = incomplete_msh_reason(file_name)
+        if reason is not None:
+            raise OSError("write_mesh:: incomplete mesh file " + file_name, reason)
         gmsh.finalize()
-- 
2.43.0


From bed337296954cec71e712173b5ace983d112f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 07/21] fix: a fracture network gets its ids back when its
 mesher is done with it

set_points shifted point and cell ids, write_mesh took back only the point ids:
every reuse of the network renumbered its cells further, and after a failed
write a repeated set_points shifted the points twice.
---
 src/mesh/conformal_mesher.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index 13af0ce..4bb814a 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -18,6 +18,7 @@ class ConformalMesher:
         self.tags_3d = None
 
         self.domain: Domain = None
+        self.fracture_network_shift = (0, 0)
 
     def set_geometry_builder(self, geometry_builder):
         self.geometry_builder = geometry_builder
@@ -33,8 +34,18 @@ class ConformalMesher:
 
         max_point_id = len(self.geometry_builder.points)
         max_cell_id = len(self.geometry_builder.cells)
+        self.restore_fracture_network_ids()
         self.fracture_network.shift_point_ids(max_point_id)
         self.fracture_network.shift_cell_ids(max_cell_id)
+        self.fracture_network_shift = (max_point_id, max_cell_id)
+
+    def restore_fracture_network_ids(self):
+        if self.fracture_network is None:
+            return
+        point_shift, cell_shift = self.fracture_network_shift
+        self.fracture_network.shift_point_ids(-point_shift)
+        self.fracture_network.shift_cell_ids(-cell_shift)
+        self.fracture_network_shift = (0, 0)
 
     def transfer_domain_descritpion(self):
         dimension = 0
@@ -498,9 +509,7 @@ class ConformalMesher:
         if reason is not None:
             raise OSError("write_mesh:: incomplete mesh file " + file_name, reason)
         gmsh.finalize()
-        if self.fracture_network is not None:
-            max_point_id = -len(self.geometry_builder.points)
-            self.fracture_network.shift_point_ids(max_point_id)
+        self.restore_fracture_network_ids()
 
     def generate_from_domain(self, lc, n_refinements=0):
         if gmsh.isInitialized():  # left open by a failed generation or write
-- 
2.43.0


From 61f0f14f0b6ce5a30a2d312e7d303152e04390f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 08/21] fix: refuse a .msh text file with zeroed parts

A lost block reads back as zero bytes; zeroed trailing digits of the last number
of a section were dropped silently and gave another mesh.
---
 src/mesh/msh_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesh/msh_file.py b/src/mesh/msh_file.py
index 8c83218..f158ee0 100644
--- a/src/mesh/msh_file.py
+++ b/src/mesh/msh_file.py
@@ -7,8 +7,13 @@ def incomplete_msh_reason(file_name):
         return None
     open_section = None
     sections = []
+    binary_q = False
     with open(file_name, "rb") as file:
         for line in file:
+            if open_section == b"MeshFormat" and line.split()[1:2] == [b"1"]:
+                binary_q = True
+            if not binary_q and b"\0" in line:
+                return "zero bytes in a text file"
             if not line.startswith(b"$"):
                 continue
             mark = line.strip()
-- 
2.43.0


From 1ced7c0b2e88571b2a88dfcbe230d0bc4f201df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 09/21] fix: l2_projector keeps small matrix entries on small
 meshes

---
 src/postprocess/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index 7c3915a..a704fdc 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -38,7 +38,7 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
         row = np.repeat(dest, len(dest))
         col = np.tile(dest, len(dest))
         nnz = data.shape[0]
-        nnz_idx = np.where(np.logical_not(np.isclose(data, 1.0e-16)))[0]
+        nnz_idx = np.nonzero(data)[0]
         if symmetric_solver_q:
             [
                 A.setValue(row=row[idx], col=col[idx], value=data[idx], addv=True)
-- 
2.43.0


From 2c9b0ca17d08e3b687de03f82f1a8c3370628295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 10/21] fix: an exhausted iterator in a weak form no longer
 ends assembly silently

---
 src/assembly/SequentialAssembler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/assembly/SequentialAssembler.py b/src/assembly/SequentialAssembler.py
index 2cdb3f8..998f404 100644
--- a/src/assembly/SequentialAssembler.py
+++ b/src/assembly/SequentialAssembler.py
@@ -52,7 +52,8 @@ class SequentialAssembler:
             alpha=alpha,
             t=time_value,
         )
-        list(map(scatter_function, sequence))
+        for entity in sequence:
+            scatter_function(entity)
 
     def __scatter_form(self, input_list):
         form_type, sequence, form, alpha = input_list
@@ -64,7 +65,8 @@ class SequentialAssembler:
             jac_g=self.jacobian,
             alpha=alpha,
         )
-        list(map(scatter_function, sequence))
+        for entity in sequence:
+            scatter_function(entity)
 
     def scatter_forms(self, measure_time_q=False):
         for item in self.form_to_input_list.items():
-- 
2.43.0


From f388663b404dc9f22f13485b837157cce1a1fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 11/21] fix: weak forms read the quadrature and the neighbour
 of the current space layout

The primal Laplace forms, the dual elasticity form, its Riesz map and the
trace helper still read space.quadrature as one (points, weights) pair and
neighbour lists as plain ids, so every evaluation raised.
---
 src/basis/basis_trace.py                   | 2 +-
 src/weak_forms/laplace_primal_weak_form.py | 6 +++---
 src/weak_forms/le_dual_weak_form.py        | 2 +-
 src/weak_forms/le_riesz_map_weak_form.py   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/basis/basis_trace.py b/src/basis/basis_trace.py
index a185cbf..1bba803 100644
--- a/src/basis/basis_trace.py
+++ b/src/basis/basis_trace.py
@@ -42,7 +42,7 @@ def trace_discrete_space(
     assert neigh_check
 
     # select neighbor
-    c0_cell_id = neigh_list[neigh_idx]
+    _, c0_cell_id = neigh_list[neigh_idx]
     c0_element_idx = sub_space.id_to_element[c0_cell_id]
     c0_element = sub_space.elements[c0_element_idx]
 
diff --git a/src/weak_forms/laplace_primal_weak_form.py b/src/weak_forms/laplace_primal_weak_form.py
index be6fb3d..3ebf815 100644
--- a/src/weak_forms/laplace_primal_weak_form.py
+++ b/src/weak_forms/laplace_primal_weak_form.py
@@ -23,7 +23,7 @@ class LaplacePrimalWeakForm(WeakForm):
 
         cell = p_data.cell
         dim = cell.dimension
-        points, weights = self.space.quadrature
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.elements[iel].evaluate_mapping(points)
 
         # basis
@@ -84,8 +84,8 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         p_data: ElementData = p_space.bc_elements[iel].data
 
         cell = p_data.cell
-        points, weights = self.space.bc_quadrature
         dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.bc_elements[iel].evaluate_mapping(points)
 
         # basis
@@ -106,7 +106,7 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, p_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = p_space.id_to_element[neigh_cell_id]
         neigh_element = p_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index d1bc431..87c4410 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -31,8 +31,8 @@ class LEDualWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
diff --git a/src/weak_forms/le_riesz_map_weak_form.py b/src/weak_forms/le_riesz_map_weak_form.py
index f2484d8..b2b7724 100644
--- a/src/weak_forms/le_riesz_map_weak_form.py
+++ b/src/weak_forms/le_riesz_map_weak_form.py
@@ -27,8 +27,8 @@ class LERieszMapWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
-- 
2.43.0


From edd5bb41b2ea87062223cf3187edc86cad730022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 12/21] fix: degenerate boundary form no longer scales the
 array its boundary function returned

---
 src/weak_forms/degenerate_elliptic_weak_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_forms/degenerate_elliptic_weak_form.py b/src/weak_forms/degenerate_elliptic_weak_form.py
index 922f26b..da2e271 100644
--- a/src/weak_forms/degenerate_elliptic_weak_form.py
+++ b/src/weak_forms/degenerate_elliptic_weak_form.py
@@ -207,7 +207,7 @@ class DegenerateEllipticWeakFormBCDirichlet(WeakForm):
                 d_phi = f_d_phi(x[i, 0], x[i, 1], x[i, 2])
                 phi_v = f_porosity(x[i, 0], x[i, 1], x[i, 2])
                 if not np.isclose(phi_v, 0.0) and phi_v > 0.0:
-                    q_D_v *= d_phi / np.sqrt(phi_v)
+                    q_D_v = q_D_v * (d_phi / np.sqrt(phi_v))
                 phi = mp_tr_phi_tab[0, i, mp_dof_n_index, 0:dim] @ n[0:dim]
                 res_block_mp += det_jac[i] * omega * q_D_v[c] * phi
 
-- 
2.43.0


From ac76f6aae379efa1fb5af956a7fce94305989c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:53 +0000
Subject: [PATCH 13/21] fix: pointwise error of fields with several components
 no longer mixes components

---
 src/postprocess/solution_post_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 89baabe..5bd08d0 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -363,7 +363,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(np.ravel(f_e) - np.ravel(f_h))
                 eh_data[cell_idx] = e_f.ravel()
 
             c_data_dict[name + "_error"] = [eh_data]
@@ -382,7 +382,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = gmesh.points[node_idx]
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(np.ravel(f_e) - np.ravel(f_h))
                 eh_data[node_idx] = e_f.ravel()
 
             p_data_dict[name + "_error"] = eh_data
-- 
2.43.0


From 050949f79eaa49bb068a7286074dde7057c38c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 14/21] fix: 3D boxes with planes can be built (missing import)

---
 src/topology/domain_market.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 307f8bc..0625d65 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -5,7 +5,11 @@ import numpy as np
 from topology.domain import Domain
 from topology.edge import Edge
 from topology.face import Face
-from topology.shape_manipulation import embed_edge_in_face, intersect_edges
+from topology.shape_manipulation import (
+    embed_edge_in_face,
+    intersect_edges,
+    intersect_faces,
+)
 from topology.shell import Shell
 from topology.solid import Solid
 from topology.vertex import Vertex
-- 
2.43.0


From 1d00c422d2110d8b0b180b43e199492e668b7d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 15/21] fix: meshing no longer renumbers the fracture network

set_points shifted the ids of the network and only a completed write_mesh of the
same mesher took the shift back: after a failed generation another mesher met
ids that do not exist. The shift is now applied where gmsh entities are made.
---
 src/mesh/conformal_mesher.py | 39 ++++++++++++++----------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index 4bb814a..bea2c71 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -34,19 +34,8 @@ class ConformalMesher:
 
         max_point_id = len(self.geometry_builder.points)
         max_cell_id = len(self.geometry_builder.cells)
-        self.restore_fracture_network_ids()
-        self.fracture_network.shift_point_ids(max_point_id)
-        self.fracture_network.shift_cell_ids(max_cell_id)
         self.fracture_network_shift = (max_point_id, max_cell_id)
 
-    def restore_fracture_network_ids(self):
-        if self.fracture_network is None:
-            return
-        point_shift, cell_shift = self.fracture_network_shift
-        self.fracture_network.shift_point_ids(-point_shift)
-        self.fracture_network.shift_cell_ids(-cell_shift)
-        self.fracture_network_shift = (0, 0)
-
     def transfer_domain_descritpion(self):
         dimension = 0
         for dimension in range(len(self.domain.shapes)):
@@ -440,6 +429,9 @@ class ConformalMesher:
             gmsh.model.addPhysicalGroup(3, self.tags_3d, geo_3_cell.physical_tag)
 
     def add_fracture_network_description(self):
+        # the ids of the network follow the ones of the geometry; it keeps its own
+        point_shift, cell_shift = self.fracture_network_shift
+
         # add fn cells
         graph_nodes = list(self.fracture_network.graph.nodes())
         geo_cells = self.fracture_network.cells[graph_nodes]
@@ -461,18 +453,18 @@ class ConformalMesher:
         for geo_1_cell in geo_1_cells:
             n_immersed_cells = len(geo_1_cell.immersed_cells)
             if n_immersed_cells == 0:
-                b = geo_1_cell.boundary_cells[0].point_id + 1
-                e = geo_1_cell.boundary_cells[1].point_id + 1
-                gmsh.model.geo.addLine(b, e, geo_1_cell.id)
-                self.tags_1d.append(geo_1_cell.id)
+                b = geo_1_cell.boundary_cells[0].point_id + point_shift + 1
+                e = geo_1_cell.boundary_cells[1].point_id + point_shift + 1
+                gmsh.model.geo.addLine(b, e, geo_1_cell.id + cell_shift)
+                self.tags_1d.append(geo_1_cell.id + cell_shift)
                 self.tags_0d.append(b)
                 self.tags_0d.append(e)
             else:
                 for cell_i in geo_1_cell.immersed_cells:
-                    b = cell_i.boundary_cells[0].point_id + 1
-                    e = cell_i.boundary_cells[1].point_id + 1
-                    gmsh.model.geo.addLine(b, e, cell_i.id)
-                    self.tags_1d.append(cell_i.id)
+                    b = cell_i.boundary_cells[0].point_id + point_shift + 1
+                    e = cell_i.boundary_cells[1].point_id + point_shift + 1
+                    gmsh.model.geo.addLine(b, e, cell_i.id + cell_shift)
+                    self.tags_1d.append(cell_i.id + cell_shift)
                     self.tags_0d.append(b)
                     self.tags_0d.append(e)
 
@@ -480,7 +472,7 @@ class ConformalMesher:
 
         for geo_1_cell in geo_1_cells:
             tags = [
-                cell.point_id + 1
+                cell.point_id + point_shift + 1
                 for cell in geo_0_cells
                 if cell.physical_tag == geo_1_cell.physical_tag
             ]
@@ -491,16 +483,16 @@ class ConformalMesher:
             check_q = geo_0_cell.physical_tag not in frac_tags
             if check_q:
                 gmsh.model.addPhysicalGroup(
-                    0, [geo_0_cell.point_id + 1], geo_0_cell.physical_tag
+                    0, [geo_0_cell.point_id + point_shift + 1], geo_0_cell.physical_tag
                 )
 
         for geo_1_cell in geo_1_cells:
             tags = []
             n_immersed_cells = len(geo_1_cell.immersed_cells)
             if n_immersed_cells == 0:
-                tags = [geo_1_cell.id]
+                tags = [geo_1_cell.id + cell_shift]
             else:
-                tags = [cell.id for cell in geo_1_cell.immersed_cells]
+                tags = [cell.id + cell_shift for cell in geo_1_cell.immersed_cells]
             gmsh.model.addPhysicalGroup(1, tags, geo_1_cell.physical_tag)
 
     def write_mesh(self, file_name):
@@ -509,7 +501,6 @@ class ConformalMesher:
         if reason is not None:
             raise OSError("write_mesh:: incomplete mesh file " + file_name, reason)
         gmsh.finalize()
-        self.restore_fracture_network_ids()
 
     def generate_from_domain(self, lc, n_refinements=0):
         if gmsh.isInitialized():  # left open by a failed generation or write
-- 
2.43.0


From 7f14f4094e9930f712472a46f973d302965fe20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 16/21] fix: a mesher no longer writes the mesh another one
 generated

gmsh keeps one session: after a second generation write_mesh of the first mesher
silently wrote the mesh of the second. Each mesher now names its model and
refuses to write when that model is not open.
---
 src/mesh/conformal_mesher.py | 5 +++++
 src/mesh/discrete_domain.py  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index bea2c71..438d597 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -19,6 +19,7 @@ class ConformalMesher:
 
         self.domain: Domain = None
         self.fracture_network_shift = (0, 0)
+        self.gmsh_model = "conformal_mesher_" + str(id(self))
 
     def set_geometry_builder(self, geometry_builder):
         self.geometry_builder = geometry_builder
@@ -496,6 +497,8 @@ class ConformalMesher:
             gmsh.model.addPhysicalGroup(1, tags, geo_1_cell.physical_tag)
 
     def write_mesh(self, file_name):
+        if not gmsh.isInitialized() or gmsh.model.getCurrent() != self.gmsh_model:
+            raise ValueError("write_mesh:: no mesh generated by this object is open")
         gmsh.write(file_name)
         reason = incomplete_msh_reason(file_name)
         if reason is not None:
@@ -506,6 +509,7 @@ class ConformalMesher:
         if gmsh.isInitialized():  # left open by a failed generation or write
             gmsh.finalize()
         gmsh.initialize()
+        gmsh.model.add(self.gmsh_model)
         gmsh.option.setNumber("General.Terminal", 0)
         self.lc = lc
 
@@ -525,6 +529,7 @@ class ConformalMesher:
         if gmsh.isInitialized():  # left open by a failed generation or write
             gmsh.finalize()
         gmsh.initialize()
+        gmsh.model.add(self.gmsh_model)
         self.lc = lc
         for tag, point in enumerate(self.points):
             gmsh.model.geo.addPoint(point[0], point[1], point[2], self.lc, tag + 1)
diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 06ba3c1..765decd 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -15,6 +15,7 @@ class DiscreteDomain:
         self.d1_stride = 0
         self.d2_stride = 0
         self.d3_stride = 0
+        self.gmsh_model = "discrete_domain_" + str(id(self))
 
     def __compute_entities_strides(self):
 
@@ -325,6 +326,7 @@ class DiscreteDomain:
         if gmsh.isInitialized():  # left open by a failed generation or write
             gmsh.finalize()
         gmsh.initialize()
+        gmsh.model.add(self.gmsh_model)
         gmsh.option.setNumber("General.Terminal", 0)
         self.mesh_arguments = mesh_arguments
         self.lc = self.mesh_arguments.get("lc", np.inf)
@@ -341,6 +343,8 @@ class DiscreteDomain:
         # aka = 0
 
     def write_mesh(self, file_name):
+        if not gmsh.isInitialized() or gmsh.model.getCurrent() != self.gmsh_model:
+            raise ValueError("write_mesh:: no mesh generated by this object is open")
         gmsh.write(file_name)
         reason = incomplete_msh_reason(file_name)
         if reason is not None:
-- 
2.43.0


From 851270babb60bc44d17f1c7e573b1283a26a9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 17/21] fix: a mesh that lost an embedded line or plane is not
 written

gmsh rarely drops an embedded curve from the surface mesh without an error; the
written mesh then had fracture elements that are no facet of any cell.
---
 src/mesh/conformal_mesher.py |  4 ++++
 src/mesh/discrete_domain.py  |  4 ++++
 src/mesh/embedding.py        | 36 ++++++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+)
 create mode 100644 src/mesh/embedding.py

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index 438d597..c2c21bf 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -1,6 +1,7 @@
 import gmsh
 import numpy as np
 
+from mesh.embedding import lost_embedding_reason
 from mesh.msh_file import incomplete_msh_reason
 from topology.domain import Domain
 
@@ -499,6 +500,9 @@ class ConformalMesher:
     def write_mesh(self, file_name):
         if not gmsh.isInitialized() or gmsh.model.getCurrent() != self.gmsh_model:
             raise ValueError("write_mesh:: no mesh generated by this object is open")
+        reason = lost_embedding_reason()
+        if reason is not None:
+            raise ValueError("write_mesh:: non conforming mesh", reason)
         gmsh.write(file_name)
         reason = incomplete_msh_reason(file_name)
         if reason is not None:
diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 765decd..efbad18 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -1,6 +1,7 @@
 import gmsh
 import numpy as np
 
+from mesh.embedding import lost_embedding_reason
 from mesh.msh_file import incomplete_msh_reason
 from topology.domain import Domain
 
@@ -345,6 +346,9 @@ class DiscreteDomain:
     def write_mesh(self, file_name):
         if not gmsh.isInitialized() or gmsh.model.getCurrent() != self.gmsh_model:
             raise ValueError("write_mesh:: no mesh generated by this object is open")
+        reason = lost_embedding_reason()
+        if reason is not None:
+            raise ValueError("write_mesh:: non conforming mesh", reason)
         gmsh.write(file_name)
         reason = incomplete_msh_reason(file_name)
         if reason is not None:
diff --git a/src/mesh/embedding.py b/src/mesh/embedding.py
new file mode 100644
index 0000000..34202e9
--- /dev/null
+++ b/src/mesh/embedding.py
@@ -0,0 +1,36 @@
+from itertools import combinations
+
+import gmsh
+
+
+def lost_embedding_reason():
+    """Why the current gmsh mesh leaves out an embedded shape: None when it does not."""
+    simplex_type = {1: 1, 2: 2, 3: 4}
+    for dimension in [2, 3]:
+        for _, tag in gmsh.model.getEntities(dimension):
+            embedded_tags = [
+                embedded_tag
+                for embedded_dimension, embedded_tag in gmsh.model.mesh.getEmbedded(
+                    dimension, tag
+                )
+                if embedded_dimension == dimension - 1
+            ]
+            if len(embedded_tags) == 0:
+                continue
+            _, nodes = gmsh.model.mesh.getElementsByType(simplex_type[dimension], tag)
+            facets = {
+                frozenset(facet)
+                for cell in nodes.reshape(-1, dimension + 1).tolist()
+                for facet in combinations(cell, dimension)
+            }
+            for embedded_tag in embedded_tags:
+                _, nodes = gmsh.model.mesh.getElementsByType(
+                    simplex_type[dimension - 1], embedded_tag
+                )
+                for cell in nodes.reshape(-1, dimension).tolist():
+                    if frozenset(cell) not in facets:
+                        return "entity %s of dimension %s is not followed by the cells" % (
+                            embedded_tag,
+                            dimension - 1,
+                        )
+    return None
-- 
2.43.0


From 1d93b00f339969cc65204b5819557f20644f12a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:09 +0000
Subject: [PATCH 18/21] fix: start build_conformal_mesh from empty entity maps

A build that was aborted part way left its entity maps in the mesh. Repeating
the build on the same object then gave some entities the numbers of others and
returned a wrong mesh.
---
 src/mesh/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 83baa7e..426fb6f 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -241,6 +241,9 @@ class Mesh:
                 self.insert_polyhedron(node_tags, physical_tag)
 
     def build_conformal_mesh(self):
+        # a build that was aborted leaves its entity maps
+        self.clean_up_entity_maps()
+
         # fill node_id to vertices
         vid = 0
         for i, point in enumerate(self.conformal_mesh.points):
-- 
2.43.0


From c343fa0ebca744d64d9e6b0c7a36bbfaf63d2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 19/21] fix: grad_error evaluates mapping and basis (every call
 failed)

---
 src/postprocess/l2_error_post_processor.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index e21d6d8..5fbbc69 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -124,6 +124,7 @@ def grad_error(dim, fe_space, functions, alpha):
     e3 = np.array([0, 0, 1])
 
     grad_errors = []
+    points, weights = fe_space.quadrature[dim]
     for item in fe_space.discrete_spaces.items():
         name, space = item
         grad_error = 0.0
@@ -136,13 +137,8 @@ def grad_error(dim, fe_space, functions, alpha):
             n_components = space.n_comp
             el_data = space.elements[idx].data
             cell = el_data.cell
-            points = el_data.quadrature.points
-            weights = el_data.quadrature.weights
-            phi_tab = space.elements[idx].evaluate_basis(points)
-
-            x = el_data.mapping.x
-            det_jac = el_data.mapping.det_jac
-            inv_jac = el_data.mapping.inv_jac
+            x, jac, det_jac, inv_jac = space.elements[idx].evaluate_mapping(points)
+            phi_tab = space.elements[idx].evaluate_basis(points, jac, det_jac, inv_jac)
 
             # scattering dof
             dest = fe_space.discrete_spaces_destination_indexes(idx)[name]
-- 
2.43.0


From b57a12f15faa137a060be60ddf8e439c461ee7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 20/21] fix: order the closing side of the md box wire from its
 second vertex to the first

Sub-edges of the last side were always sorted by distance from vertex 0,
so a line ending at or crossing that side left a wire whose edges did not
follow each other, and whose orientations were wrong.
---
 src/topology/domain_market.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 0625d65..22ab7ac 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -286,7 +286,9 @@ def create_md_box_2D(
             [np.mean(sub_edge.boundary_points(), axis=0) for sub_edge in sub_edges]
         )
         a, b = boundary_edge.boundary_points()
-        idx = points_line_argsort(sub_edges_xcs, a, b)
+        # the closing side runs from its second vertex to the first one
+        closing_q = boundary_edge is rock_domain_edges[-1]
+        idx = points_line_argsort(sub_edges_xcs, a, b, ba_sorting=closing_q)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
     wire_boundary = wire_edges[0].boundary_shapes[[0]]  # closed
-- 
2.43.0


From 034f1f1d85c4e8bf8ac394ba058e07b892d84810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 21/21] fix: normal Dirichlet condition couples the components
 on oblique sides

---
 src/weak_forms/le_primal_weak_form.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/weak_forms/le_primal_weak_form.py b/src/weak_forms/le_primal_weak_form.py
index 3019527..fb87f40 100644
--- a/src/weak_forms/le_primal_weak_form.py
+++ b/src/weak_forms/le_primal_weak_form.py
@@ -269,7 +269,9 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
             jac_block_u = np.zeros((n_u_phi, n_u_phi))
             for i, omega in enumerate(weights):
                 phi = u_phi_tab[0, i, :, 0] * n[c]
-                jac_block_u += beta * det_jac[i] * omega * np.outer(phi, phi)
+                jac_block_u += beta * det_jac[i] * omega * np.outer(
+                    phi, u_phi_tab[0, i, :, 0]
+                )
 
             res_block_u = np.zeros(n_u_phi)
             for i, omega in enumerate(weights):
@@ -281,6 +283,10 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
                 res_block_u -= beta * det_jac[i] * omega * u_D_normal * phi
 
             r_el[b:e:u_components] += res_block_u
-            j_el[b:e:u_components, b:e:u_components] += jac_block_u
+            # only the normal component u . n is prescribed, it couples all components
+            for d in range(u_components):
+                j_el[b:e:u_components, d : d + n_u_dof : u_components] += (
+                    jac_block_u * n[d]
+                )
 
         return r_el, j_el
-- 
2.43.0

