From e790e845908cadc89f8622361edf64a0478c5256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 01/21] fix: CustomDirichlet.sub_expressions must be a list

normalise_by_solubility() appends to it, so a CustomDirichlet with
chemical_pot=True raised AttributeError ('dict_values' has no append).
---
 festim/boundary_conditions/dirichlets/custom_dc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/custom_dc.py b/festim/boundary_conditions/dirichlets/custom_dc.py
index fa84daf..5481c60 100644
--- a/festim/boundary_conditions/dirichlets/custom_dc.py
+++ b/festim/boundary_conditions/dirichlets/custom_dc.py
@@ -39,7 +39,7 @@ class CustomDirichlet(DirichletBC):
             **self.prms,
         )
         self.expression = value_BC
-        self.sub_expressions = self.prms.values()
+        self.sub_expressions = list(self.prms.values())
 
     def convert_prms(self):
         """Creates Expressions or Constant for all parameters"""
-- 
2.43.0


From 754ea2b7f00a1e71a362d01322a146adef85ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 02/21] fix: time-dependent extrinsic trap parameters were
 never updated

phi, K, phi_0... given as expressions of t were converted to fenics
Expressions but never registered in sub_expressions, so they kept t=0.
---
 festim/concentration/traps/extrinsic_trap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/traps/extrinsic_trap.py b/festim/concentration/traps/extrinsic_trap.py
index 8eeef4d..4a08eb9 100644
--- a/festim/concentration/traps/extrinsic_trap.py
+++ b/festim/concentration/traps/extrinsic_trap.py
@@ -1,5 +1,5 @@
 from festim import Trap, as_constant_or_expression, festim_print
-from fenics import NewtonSolver, MPI
+from fenics import NewtonSolver, MPI, Expression, UserExpression
 
 
 class ExtrinsicTrapBase(Trap):
@@ -52,6 +52,9 @@ class ExtrinsicTrapBase(Trap):
         self.newton_solver = None
         for name, val in kwargs.items():
             setattr(self, name, as_constant_or_expression(val))
+            # time-dependent parameters have to be updated at each timestep
+            if isinstance(getattr(self, name), (Expression, UserExpression)):
+                self.sub_expressions.append(getattr(self, name))
         self.density_previous_solution = None
         self.density_test_function = None
 
-- 
2.43.0


From 1f36ea490eeb2694edab920f7549f234e6a5be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 03/21] fix: BoundaryCondition(field="0") and field="1" must
 mean 0 and 1

A FluxBC with field "0" was accepted then silently ignored, and a
DirichletBC with field "0" crashed with more than one component.
---
 festim/boundary_conditions/boundary_condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/boundary_conditions/boundary_condition.py b/festim/boundary_conditions/boundary_condition.py
index 2f23ebc..17ce020 100644
--- a/festim/boundary_conditions/boundary_condition.py
+++ b/festim/boundary_conditions/boundary_condition.py
@@ -15,6 +15,9 @@ class BoundaryCondition:
 
         if field == "solute":
             self.field = 0
+        elif isinstance(field, str) and field.isdigit():
+            # "0" and 0, "1" and 1... stand for the same field
+            self.field = int(field)
         else:
             self.field = field
         self.expression = None
-- 
2.43.0


From 09c113f8bacb3a53be196c1f26ae1656f5c0520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 04/21] fix: initial conditions of traps with user-defined ids

The component (position) of the trap was used as its id.
---
 festim/h_transport_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 24cc3f5..d6162bf 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -204,7 +204,7 @@ class HTransportProblem:
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
             else:
-                trap = self.traps.get_trap(component)
+                trap = self.traps[component - 1]
                 trap.initialise(
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
-- 
2.43.0


From 5001f661d58ebac1f2ba61fcdf5321d1289cd2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 05/21] fix: exports to a bare filename (no directory)

os.makedirs('') raised FileNotFoundError.
---
 festim/exports/derived_quantities/derived_quantities.py | 2 +-
 festim/exports/txt_export.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index dec5644..42eec15 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -147,7 +147,7 @@ class DerivedQuantities(list):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # save the data to csv
diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 6137b8b..283fa79 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -201,7 +201,7 @@ class TXTExport(festim.Export):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # if steady, add the corresponding label
-- 
2.43.0


From 19de098dbe794b833e71ec2b8c296ec3f646ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 06/21] fix: XDMFExport(mode='last') in steady-state
 simulations

np.isclose(t, None) raised TypeError.
---
 festim/exports/xdmf_export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 14383fa..6397d98 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -152,8 +152,9 @@ class XDMFExport(Export):
         Returns:
             bool: True if export should be exported, else False
         """
-        if self.mode == "last" and np.isclose(t, final_time, atol=0):
-            return True
+        if self.mode == "last":
+            # a steady-state simulation (no final time) has only one step
+            return final_time is None or bool(np.isclose(t, final_time, atol=0))
         elif isinstance(self.mode, int):
             if nb_iterations % self.mode == 0:
                 return True
-- 
2.43.0


From f13df2cef301ea265f26f537f461271f3be6b010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 07/21] fix: HeatTransferProblem must not overwrite its initial
 condition

The user's value was replaced by a fenics Expression, so initialising the
same simulation a second time failed.
---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index c520463..8a23afa 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -123,8 +123,8 @@ class HeatTransferProblem(festim.Temperature):
                         )
             else:
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
-                self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
-                self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+                T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
+                self.T_n.assign(f.interpolate(T_ini, V))
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
-- 
2.43.0


From 8b8d2244452bb1aaa865299f71a90be142bb58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 08/21] fix: Simulations shared their default
 sources/BCs/initial conditions

The mutable default arguments were stored as attributes, so appending to
them leaked into every other Simulation.
---
 festim/generic_simulation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index beb556f..e68f8f1 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -78,13 +78,13 @@ class Simulation:
         self,
         mesh=None,
         materials=None,
-        sources=[],
-        boundary_conditions=[],
+        sources=None,
+        boundary_conditions=None,
         traps=None,
         dt=None,
         settings=None,
         temperature=None,
-        initial_conditions=[],
+        initial_conditions=None,
         exports=None,
         log_level=40,
     ):
@@ -96,12 +96,16 @@ class Simulation:
         self.traps = traps
         self.materials = materials
 
-        self.boundary_conditions = boundary_conditions
-        self.initial_conditions = initial_conditions
+        self.boundary_conditions = (
+            boundary_conditions if boundary_conditions is not None else []
+        )
+        self.initial_conditions = (
+            initial_conditions if initial_conditions is not None else []
+        )
         self.T = temperature
         self.exports = exports
         self.mesh = mesh
-        self.sources = sources
+        self.sources = sources if sources is not None else []
 
         # internal attributes
         self.h_transport_problem = None
-- 
2.43.0


From 18bd596c21a11895b050282d5a59617448230538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 09/21] fix: `+=` bypassed the validation of Traps, Materials,
 Exports and DerivedQuantities

---
 festim/concentration/traps/traps.py                     | 4 ++++
 festim/exports/derived_quantities/derived_quantities.py | 4 ++++
 festim/exports/exports.py                               | 4 ++++
 festim/materials/materials.py                           | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/festim/concentration/traps/traps.py b/festim/concentration/traps/traps.py
index f99cec5..8dec5f6 100644
--- a/festim/concentration/traps/traps.py
+++ b/festim/concentration/traps/traps.py
@@ -29,6 +29,10 @@ class Traps(list):
     def append(self, item):
         super().append(self._validate_trap(item))
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def extend(self, other):
         if isinstance(other, type(self)):
             super().extend(other)
diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 42eec15..2622166 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -71,6 +71,10 @@ class DerivedQuantities(list):
     def append(self, item):
         super().append(self._validate_derived_quantity(item))
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def extend(self, other):
         if isinstance(other, type(self)):
             super().extend(other)
diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 989a4ae..b7fed29 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -30,6 +30,10 @@ class Exports(list):
     def append(self, item):
         super().append(self._validate_export(item))
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def extend(self, other):
         if isinstance(other, type(self)):
             super().extend(other)
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index c88c7be..fa1b6fe 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -37,6 +37,10 @@ class Materials(list):
     def append(self, item):
         super().append(self._validate_material(item))
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def extend(self, other):
         if isinstance(other, type(self)):
             super().extend(other)
-- 
2.43.0


From 7a03161eaf6a31ea667859de32fe9add4efab474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 10/21] fix: material with a single nested border, borders=[[a,
 b]]

The lookup compared x with the list [a, b].
---
 festim/materials/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index fa1b6fe..f1ef57d 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -260,7 +260,7 @@ class Materials(list):
                 return material.id
             # else find the correct material
             else:
-                if isinstance(material.borders[0], list) and len(material.borders) > 1:
+                if isinstance(material.borders[0], list):
                     list_of_borders = material.borders
                 else:
                     list_of_borders = [material.borders]
-- 
2.43.0


From abc9d870af4b59634be68cbb399decfc4f248c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 11/21] fix: the export schedule must restart when a simulation
 is reinitialised

nb_iterations carried over from the previous run.
---
 festim/generic_simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index e68f8f1..bd0a4df 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -366,6 +366,7 @@ class Simulation:
 
         self.V_DG1 = FunctionSpace(self.mesh.mesh, "DG", 1)
         self.exports.V_DG1 = self.V_DG1
+        self.exports.nb_iterations = 0  # reinitialise the export schedule
 
         # Define temperature
         if isinstance(self.T, festim.HeatTransferProblem):
-- 
2.43.0


From 35208aee6a6151517ba2e668673b6f9623c4cc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 12/21] fix: a rejected step was followed by a second change of
 the stepsize

After a divergence the stepsize was divided by the change ratio then
multiplied back (nb_it < 5: endless retries) or divided again (below
dt_min without any error).
---
 festim/stepsize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index f601069..1d65393 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -102,7 +102,7 @@ class Stepsize:
                 self.value.assign(float(self.value) / change_ratio)
                 if float(self.value) < dt_min:
                     raise ValueError("stepsize reached minimal value")
-            if nb_it < 5:
+            elif nb_it < 5:
                 self.value.assign(float(self.value) * change_ratio)
             else:
                 self.value.assign(float(self.value) / change_ratio)
-- 
2.43.0


From e3fd88afa18e848b2b033d732eca69eda065db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 13/21] fix: endless loop when the solver diverges with a
 constant stepsize

---
 festim/h_transport_problem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index d6162bf..296be2b 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -339,6 +339,12 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
+            if not converged and dt.adaptive_stepsize is None:
+                raise ValueError(
+                    "Solver diverged in {} iteration(s) but the stepsize is not adaptive".format(
+                        nb_it
+                    )
+                )
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
                 dt.adapt(t, nb_it, converged)
 
-- 
2.43.0


From b0e552edd1c456bdd2c817b325e3d2781b028501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 14/21] fix: TrapDensityXDMF ignored all but the first density
 of a trap

The density of the first material was exported in every material.
---
 festim/exports/trap_density_xdmf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 2da2463..3ae4c05 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -28,8 +28,10 @@ class TrapDensityXDMF(XDMFExport):
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
-        for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(mat.id)
+        for i, mat in enumerate(self.trap.materials):
+            # one density per material or the same density in all of them
+            density = self.trap.density[i if len(self.trap.density) > 1 else 0]
+            F -= f.inner(density, v) * dx(mat.id)
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
-- 
2.43.0


From d78f70eca51e6f0aa4e623cd1f7b70081117a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:06 +0000
Subject: [PATCH 15/21] fix: Stepsize.next_milestone returned a milestone
 already reached

When t was just below a milestone (round-off), that milestone was still
'next', and the following one could be jumped over.
---
 festim/stepsize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 1d65393..8c93abb 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -134,6 +134,9 @@ class Stepsize:
         if self.milestones is None:
             return None
         for milestone in self.milestones:
-            if current_time < milestone:
+            # a milestone that has just been reached is not the next one
+            if current_time < milestone and not np.isclose(
+                current_time, milestone, atol=0
+            ):
                 return milestone
         return None
-- 
2.43.0


From f41809e55b33421d2f95b7381889fd1cd59544bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:06 +0000
Subject: [PATCH 16/21] fix: the first step could jump over a milestone or the
 final time

The stepsize was only limited after a step.
---
 festim/generic_simulation.py | 8 ++++++++
 festim/stepsize.py           | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index bd0a4df..dca87b8 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -480,6 +480,10 @@ class Simulation:
         if not self.settings.update_jacobian:
             self.h_transport_problem.compute_jacobian()
 
+        # the first step can't go past a milestone nor the final time
+        self.dt.adapt_to_next_milestone(self.t)
+        self.adapt_to_final_time()
+
         #  Time-stepping
         festim.festim_print("Time stepping...")
         while self.t < self.settings.final_time and not np.isclose(
@@ -521,6 +525,10 @@ class Simulation:
         # Post processing
         self.run_post_processing()
 
+        self.adapt_to_final_time()
+
+    def adapt_to_final_time(self):
+        """Reduces the stepsize if it would go past the final time"""
         # avoid t > final_time
         next_time = self.t + float(self.dt.value)
         if next_time > self.settings.final_time:
diff --git a/festim/stepsize.py b/festim/stepsize.py
index 8c93abb..31ffdf9 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -114,6 +114,14 @@ class Stepsize:
                     self.value.assign(max_stepsize)
 
         # adapt for next milestone
+        self.adapt_to_next_milestone(t)
+
+    def adapt_to_next_milestone(self, t):
+        """Reduces the stepsize if it would jump over the next milestone.
+
+        Args:
+            t (float): current time.
+        """
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
             if t + float(self.value) > next_milestone and not np.isclose(
-- 
2.43.0


From 6d2d55292fb3b2f790134978949b2ee1df5cc7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:06 +0000
Subject: [PATCH 17/21] fix: XDMFExport appended to the file of a previous run

Reinitialising and running a simulation again duplicated the checkpoints.
---
 festim/generic_simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index dca87b8..87bf5a6 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -419,6 +419,11 @@ class Simulation:
                         q.soret = self.settings.soret
                         q.T = self.T.T
 
+            if isinstance(export, festim.XDMFExport):
+                # start a new file, don't append to the one of a previous run
+                export.define_xdmf_file()
+                export.append = False
+
             if isinstance(export, festim.TXTExport):
                 # pre-process data depending on the chemical potential flag, trap element type,
                 #  and material borders
-- 
2.43.0


From 48ee17db8a1e42f1508924fcc9c34b90a8f0530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:06 +0000
Subject: [PATCH 18/21] fix: sources of traps with user-defined ids

The position of the trap was used instead of its id, unlike in the
initial conditions and exports.
---
 festim/generic_simulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 87bf5a6..d3f930c 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -219,9 +219,10 @@ class Simulation:
             "mobile": self.mobile,
             "T": self.T,
         }
-        for i, trap in enumerate(self.traps, 1):
-            field_to_object[i] = trap
-            field_to_object[str(i)] = trap
+        self.traps.assign_traps_ids()
+        for trap in self.traps:
+            field_to_object[trap.id] = trap
+            field_to_object[str(trap.id)] = trap
 
         # set sources
         for source in self.sources:
-- 
2.43.0


From 27b5b64876f1a22d537af313a1c9b13f41ed42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:06 +0000
Subject: [PATCH 19/21] fix: SurfaceKinetics with conservation of chemical
 potential

The time derivative of the subsurface concentration was computed from c at
the current step but theta = c/S at the previous one.
---
 festim/concentration/mobile.py |  5 ++++-
 festim/concentration/theta.py  | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index af57b0d..98bda53 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -219,7 +219,7 @@ class Mobile(Concentration):
                     if isinstance(bc, SurfaceKinetics):
                         bc.create_form(
                             solute,
-                            self.previous_solution,
+                            self.previous_mobile_concentration(),
                             self.test_function,
                             T,
                             ds,
@@ -242,3 +242,6 @@ class Mobile(Concentration):
 
     def mobile_concentration(self):
         return self.solution
+
+    def previous_mobile_concentration(self):
+        return self.previous_solution
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 51fb816..0275a6e 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,5 @@
 from festim import Mobile, k_B
+from festim.materials.materials import ArheniusCoeff
 import fenics as f
 
 
@@ -81,6 +82,23 @@ class Theta(Mobile):
             + self.materials.sievert_marker * sieverts_to_concentration
         )
 
+    def previous_mobile_concentration(self):
+        """Returns the hydrogen concentration at the previous timestep
+
+        Returns:
+            ufl.algebra.Sum: the previous hydrogen mobile concentration
+        """
+        if self.T.is_steady_state():
+            S_n = self.S
+        else:
+            S_n = ArheniusCoeff(
+                self.materials, self.volume_markers, self.T.T_n, "S_0", "E_S", degree=2
+            )
+        return (
+            self.materials.henry_marker * self.previous_solution**2 * S_n
+            + self.materials.sievert_marker * self.previous_solution * S_n
+        )
+
     def post_processing_solution_to_concentration(self):
         """Converts the post_processing_solution from theta to mobile
         concentration.
-- 
2.43.0


From 6c684be623d6c17550f8cf0fbebae3f1fb6df9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:28 +0000
Subject: [PATCH 20/21] fix: transient heat transfer starts from its initial
 condition

T was zero until the first solve, so solubilities (and the initial chemical
potential) were evaluated at T=0.
---
 festim/temperature/temperature_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 8a23afa..25e5277 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -125,6 +125,8 @@ class HeatTransferProblem(festim.Temperature):
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
                 T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
                 self.T_n.assign(f.interpolate(T_ini, V))
+            # the temperature is the initial one until the first solve
+            self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
-- 
2.43.0


From 6771963a6db67dde5ce14f8bf9846c2aab8a2d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:38 +0000
Subject: [PATCH 21/21] fix: T_n is the temperature of the previous step during
 a transient step

HeatTransferProblem.update overwrote T_n with the new temperature before the
hydrogen problem was solved: with conservation of chemical potential the
previous concentration was evaluated with the new solubility and hydrogen was
created or lost.
---
 festim/temperature/temperature_solver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 25e5277..ee0191b 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -262,6 +262,7 @@ class HeatTransferProblem(festim.Temperature):
             t (float): the time
         """
         if self.transient:
+            self.T_n.assign(self.T)
             festim.update_expressions(self.sub_expressions, t)
             # Solve heat transfers
             dT = f.TrialFunction(self.T.function_space())
@@ -274,7 +275,5 @@ class HeatTransferProblem(festim.Temperature):
             self.newton_solver.solve(problem, self.T.vector())
             f.end()
 
-            self.T_n.assign(self.T)
-
     def is_steady_state(self):
         return not self.transient
-- 
2.43.0

