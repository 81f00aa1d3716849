From 9e539aee67e624386516a94b24a2cf5d37cf048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:27 +0000
Subject: [PATCH 001/110] fix: recognise strict inequalities in is_inequality

---
 yaocptool/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 45f1a5d..dce5e9e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -240,7 +240,7 @@ def is_inequality(expr: Union[SX, MX]):
     :return: True if 'expr' is an inequality, False otherwise
     :rtype: bool
     """
-    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op == OP_LT)
+    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op() == OP_LT)
 
 
 def is_equality(expr: Union[SX, MX]):
-- 
2.43.0


From e97043de7a858103b8926ef7d044dbf5d9770036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:27 +0000
Subject: [PATCH 002/110] fix: include_constraint(x <= c) is an upper bound,
 not a lower bound

---
 yaocptool/optimization/abstract_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 712479c..6cbc3ff 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, is_equal, repmat, vertcat
+from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -372,7 +372,7 @@ class AbstractOptimizationProblem(object):
                 # by default all inequalities are treated as 'less than' or 'less or equal', e.g.: x<=1 or 1<=x
                 # if the term on the rhs term is the non-symbolic term, then it is a 'x<=1' inequality,
                 # where the independent term is the upper bound
-                if is_equal(indep_term_dm, expr.dep(1)):
+                if not depends_on(expr.dep(1), vertcat(self.x, self.p)):
                     self.include_inequality(dep_term, ub=indep_term_dm)
                 # otherwise, it is a '1<=x' inequality, where the independent term is the lower bound
                 else:
-- 
2.43.0


From 78e857ffefea3fb56acca47ea4451ccbe77bd0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:27 +0000
Subject: [PATCH 003/110] fix: accept integer bounds in include_variable

---
 yaocptool/optimization/abstract_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 6cbc3ff..c26ac7d 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -132,9 +132,9 @@ class AbstractOptimizationProblem(object):
             upper bound, a vector of ub  with size of the given variable will be used as a upper bound.
             (default = [inf]*size)
         """
-        if isinstance(lb, float):
+        if isinstance(lb, (int, float)):
             lb = vertcat(lb)
-        if isinstance(ub, float):
+        if isinstance(ub, (int, float)):
             ub = vertcat(ub)
 
         if lb.numel() == 1 and variable.numel() > 1:
-- 
2.43.0


From 0f4c245d4366cebf182d3d4139110332b0aeb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:27 +0000
Subject: [PATCH 004/110] fix: discard the cached solver when the optimization
 problem changes

---
 yaocptool/optimization/abstract_optimization_problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index c26ac7d..88d534b 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -167,6 +167,7 @@ class AbstractOptimizationProblem(object):
                     )
                 )
 
+        self._solver = None
         self.x = vertcat(self.x, variable)
         self.x_lb = vertcat(self.x_lb, lb)
         self.x_ub = vertcat(self.x_ub, ub)
@@ -190,6 +191,7 @@ class AbstractOptimizationProblem(object):
 
         :param MX|SX par: parameter to be included
         """
+        self._solver = None
         self.p = vertcat(self.p, par)
 
     def set_objective(self, expr: Union[MX, List[MX], float, int]):
@@ -208,6 +210,7 @@ class AbstractOptimizationProblem(object):
                 "Objective function should be an scalar. "
                 "Given objective has shape = {}".format(expr.shape)
             )
+        self._solver = None
         self.f = expr
 
     def include_inequality(
@@ -283,6 +286,7 @@ class AbstractOptimizationProblem(object):
                     )
                 )
 
+        self._solver = None
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, lb)
         self.g_ub = vertcat(self.g_ub, ub)
@@ -325,6 +329,7 @@ class AbstractOptimizationProblem(object):
                 "RHS = {}".format(rhs)
             )
 
+        self._solver = None
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, rhs)
         self.g_ub = vertcat(self.g_ub, rhs)
-- 
2.43.0


From c8ea063e9a0db67f15c592bbd6082be39ff23d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:27 +0000
Subject: [PATCH 005/110] fix: do not share the global solver options between
 nonlinear problems

---
 yaocptool/optimization/nonlinear_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/optimization/nonlinear_problem.py b/yaocptool/optimization/nonlinear_problem.py
index d359ee0..de36af1 100644
--- a/yaocptool/optimization/nonlinear_problem.py
+++ b/yaocptool/optimization/nonlinear_problem.py
@@ -23,7 +23,7 @@ class NonlinearOptimizationProblem(AbstractOptimizationProblem):
         """
         super(NonlinearOptimizationProblem, self).__init__(**kwargs)
         if self.solver_options == {}:
-            self.solver_options = SOLVER_OPTIONS["nlpsol_options"]
+            self.solver_options = dict(SOLVER_OPTIONS["nlpsol_options"])
 
     def _create_solver(self) -> Function:
         problem_dict = self.get_problem_dict()
-- 
2.43.0


From 1324c538d1122dddbe3b6c597c870ccb9d64612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:27 +0000
Subject: [PATCH 006/110] fix: honour negative indices and reject index ==
 numel when removing from a vector

---
 yaocptool/util/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index dce5e9e..810f71a 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -108,7 +108,7 @@ def remove_variables_from_vector_by_indices(
     """
     if indices:
         numel = vector.numel()
-        if max(indices) > numel:
+        if max(indices) >= numel:
             raise ValueError(
                 "Found indices out of bounds. Index violating: {}, indices: {}".format(
                     max(indices), indices
@@ -120,7 +120,7 @@ def remove_variables_from_vector_by_indices(
                     min(indices), indices
                 )
             )
-
+        indices = [ind % numel for ind in indices]
     remaining_ind = [ind for ind in range(vector.numel()) if ind not in indices]
     vector = vector[remaining_ind]
 
-- 
2.43.0


From 53eb74e8a680748f3a7d8071fbc2395bdb5e2d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:37 +0000
Subject: [PATCH 007/110] fix: a rejected duplicate state leaves the model
 unchanged

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index c746088..5352232 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -56,6 +56,10 @@ class ContinuousStateMixin(BaseMixin):
     def include_state(
         self, var: SX, ode: Optional[SX] = None, x_0: Optional[SX] = None
     ) -> SX:
+        for x_i in var.nz:
+            if x_i in self._ode:
+                raise ValueError(f'State "{x_i}" already in this model')
+
         self.x = vertcat(self.x, var)
 
         if x_0 is None:
@@ -64,8 +68,6 @@ class ContinuousStateMixin(BaseMixin):
 
         # crate entry for included state
         for x_i in var.nz:
-            if x_i in self._ode:
-                raise ValueError(f'State "{x_i}" already in this model')
             self._ode[x_i] = None
         if ode is not None:
             self.include_equations(ode=ode, x=var)
-- 
2.43.0


From 93890d29d0f98da734ad671a785a59bdfffe4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:37 +0000
Subject: [PATCH 008/110] fix: removing a state also removes its initial
 condition symbol

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 5352232..562e494 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -7,7 +7,11 @@ from casadi import SX, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
-from yaocptool.util.util import remove_variables_from_vector
+from yaocptool.util.util import (
+    find_variables_indices_in_vector,
+    remove_variables_from_vector,
+    remove_variables_from_vector_by_indices,
+)
 
 
 class ContinuousStateMixin(BaseMixin):
@@ -74,8 +78,9 @@ class ContinuousStateMixin(BaseMixin):
         return x_0
 
     def remove_state(self, var: SX):
+        indices = find_variables_indices_in_vector(var, self.x)
         self.x = remove_variables_from_vector(var, self.x)
-
+        self.x_0 = remove_variables_from_vector_by_indices(indices, self.x_0)
         for x_i in var.nz:
             del self._ode[x_i]
 
-- 
2.43.0


From 96991bc53a32c0f78dd39b1d448034aa3fb1a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:37 +0000
Subject: [PATCH 009/110] fix: linearize creates the states and controls of the
 linear model

---
 yaocptool/modelling/system_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 8fe0dc8..2c9df86 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -703,7 +703,11 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             x_bar, u_bar
         )
 
-        linear_model = SystemModel(n_x=self.n_x, n_u=self.n_u)
+        linear_model = SystemModel()
+        for name in self.x_names:
+            linear_model.create_state(name)
+        for name in self.u_names:
+            linear_model.create_control(name)
         linear_model.include_equations(
             ode=[mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)]
         )
-- 
2.43.0


From 80bf3de28852c4f1e0bcb886be0504cf0ef31c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:37 +0000
Subject: [PATCH 010/110] fix: find_equilibrium solves for the controls

---
 yaocptool/modelling/system_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 2c9df86..994b9b0 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -750,7 +750,7 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         eqs = vertcat(self.ode, self.alg, additional_eqs)
         eqs = substitute(eqs, self.t, t_0)
         eqs = substitute(eqs, self.tau, 0)
-        f_eqs = Function("f_equilibrium", [vertcat(*self.all_sym[1:-1])], [eqs])
+        f_eqs = Function("f_equilibrium", [vertcat(self.x, self.y, self.u)], [eqs])
 
         rf = rootfinder("rf_equilibrium", "nlpsol", f_eqs, rootfinder_options)
         res = rf(guess)
-- 
2.43.0


From d37a8d28bc5ad042c50065725dd3192b14d5c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:00 +0000
Subject: [PATCH 011/110] fix: deep copy of models without algebraic equations,
 with parametrized controls or prefixes

---
 yaocptool/modelling/system_model.py | 86 +++++++++++------------------
 1 file changed, 31 insertions(+), 55 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 994b9b0..cf8b0d8 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -485,63 +485,39 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
 
         :rtype: SystemModel
         """
-        model_copy = SystemModel(
-            name=self.name, model_name_as_prefix=self.model_name_as_prefix
-        )
-        x_copy = SX(0, 1)
-        y_copy = SX(0, 1)
-        u_copy = SX(0, 1)
-        p_copy = SX(0, 1)
-        theta_copy = SX(0, 1)
-        u_par_copy = SX(0, 1)
-
-        if self.n_x > 0:
-            x_copy = vertcat(
-                *[model_copy.create_state(self.x[i].name()) for i in range(self.n_x)]
-            )
-        if self.n_y > 0:
-            y_copy = vertcat(
-                *[
-                    model_copy.create_algebraic_variable(self.y[i].name())
-                    for i in range(self.n_y)
-                ]
-            )
-        if self.n_u > 0:
-            u_copy = vertcat(
-                *[model_copy.create_control(self.u[i].name()) for i in range(self.n_u)]
-            )
-
-        if self.n_p > 0:
-            p_copy = vertcat(
-                *[
-                    model_copy.create_parameter(self.p[i].name())
-                    for i in range(self.n_p)
-                ]
-            )
-        if self.n_theta > 0:
-            theta_copy = vertcat(
-                *[
-                    model_copy.create_theta(self.theta[i].name())
-                    for i in range(self.n_theta)
-                ]
-            )
-
-        if self.n_u_par > 0:
-            u_par_copy = vertcat(
-                *[SX.sym(self.u_par[i].name()) for i in range(self.n_u_par)]
-            )
-
-        model_copy.include_equations(ode=self.ode, alg=self.alg)
-        model_copy.u_par = self.u_par
+        # the variables already carry the prefix, if there is one
+        model_copy = SystemModel(name=self.name)
+        original = [self.t, self.tau]
+        replacement = [model_copy.t, model_copy.tau]
+
+        for variables, create in (
+            (self.x, model_copy.create_state),
+            (self.y, model_copy.create_algebraic_variable),
+            (self.u, model_copy.create_control),
+            (self.p, model_copy.create_parameter),
+            (self.theta, model_copy.create_theta),
+        ):
+            for var in variables.nz:
+                original.append(var)
+                replacement.append(create(var.name()))
+        for var in self.u_par.nz:
+            if not find_variables_indices_in_vector(var, vertcat(*original)):
+                original.append(var)
+                replacement.append(SX.sym(var.name()))
+
+        original = vertcat(*original)
+        replacement = vertcat(*replacement)
+
+        model_copy._ode = dict(zip(model_copy._ode, self._ode.values()))
+        model_copy.alg = self.alg
         model_copy.u_expr = self.u_expr
+        model_copy.u_par = substitute(self.u_par, original, replacement)
+        model_copy._parametrized_controls = [
+            substitute(u, original, replacement) for u in self._parametrized_controls
+        ]
+        model_copy.replace_variable(original, replacement)
 
-        model_copy.replace_variable(self.x, x_copy)
-        model_copy.replace_variable(self.y, y_copy)
-        model_copy.replace_variable(self.u, u_copy)
-        model_copy.replace_variable(self.p, p_copy)
-        model_copy.replace_variable(self.theta, theta_copy)
-        model_copy.replace_variable(self.u_par, u_par_copy)
-
+        model_copy.model_name_as_prefix = self.model_name_as_prefix
         model_copy.has_adjoint_variables = self.has_adjoint_variables
 
         return model_copy
-- 
2.43.0


From 8ce3566612030cd5735a8c50eb17ba20372ca293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:56 +0000
Subject: [PATCH 012/110] fix: extend a DataSet with entries it does not have
 yet

---
 yaocptool/modelling/dataset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 1caab4f..d60b0a3 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -174,6 +174,12 @@ class DataSet:
         """
 
         for entry in other_dataset.data:
+            if entry not in self.data:
+                self.create_entry(
+                    entry,
+                    size=other_dataset.get_entry_size(entry),
+                    names=other_dataset.get_entry_names(entry),
+                )
             if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
                 raise ValueError(
                     "The size of the same entry is different in the two datasets, "
@@ -181,12 +187,6 @@ class DataSet:
                         self.get_entry_size(entry), other_dataset.get_entry_size(entry)
                     )
                 )
-            if entry not in self.data:
-                self.create_entry(
-                    entry,
-                    size=other_dataset.get_entry_size(entry),
-                    names=other_dataset.get_entry_names(entry),
-                )
             self.insert_data(
                 entry,
                 time=other_dataset.data[entry].time,
-- 
2.43.0


From 093757d30f7ce55a666f2493f9e74d7c047bb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:56 +0000
Subject: [PATCH 013/110] fix: sort a DataSet that has entries without data

---
 yaocptool/modelling/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index d60b0a3..247858d 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -207,6 +207,8 @@ class DataSet:
 
         for entry in entries:
             entry_length = self.data[entry].time.shape[1]
+            if entry_length == 0:
+                continue
             time = [self.data[entry].time[i] for i in range(entry_length)]
             values = [
                 self.data[entry].values[:, i]
-- 
2.43.0


From 29fd0851b73fbaa6c8a4d0bd25cd5eff9253975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:56 +0000
Subject: [PATCH 014/110] fix: infer the size of the entry the data was
 inserted in

---
 yaocptool/modelling/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 247858d..72815ea 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -151,7 +151,7 @@ class DataSet:
         self.data[entry].time = horzcat(self.data[entry].time, time)
 
         if self.data[entry].size is None:
-            self.data["entry"].size = value.size1()
+            self.data[entry].size = value.size1()
 
     def get_copy(self) -> "DataSet":
         """
-- 
2.43.0


From f2e4b3f3957ed11728dad2bc2171d53d8d902124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:56 +0000
Subject: [PATCH 015/110] fix: SimulationResult keeps the given finite_elements
 and delta_t

---
 yaocptool/modelling/simulation_result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/simulation_result.py b/yaocptool/modelling/simulation_result.py
index 770feee..512bd48 100644
--- a/yaocptool/modelling/simulation_result.py
+++ b/yaocptool/modelling/simulation_result.py
@@ -22,10 +22,10 @@ class SimulationResult(DataSet):
         **kwargs
     ):
         self.model_name = model_name
-        self.delta_t = (delta_t,)
+        self.delta_t = delta_t
         self.t_0 = t_0
         self.t_f = t_f
-        self.finite_elements = 0
+        self.finite_elements = finite_elements
 
         DataSet.__init__(self, **kwargs)
         self.plot_style = "plot"
-- 
2.43.0


From 376042368afa69f646c32449f8c1efef1c98670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:56 +0000
Subject: [PATCH 016/110] fix: OptimalControlProblem.simulate covers the
 requested time horizon

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index c8eeb37..152a044 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1047,14 +1047,14 @@ class OptimalControlProblem(object):
 
         if finite_elements is not None and isinstance(t_f, (DM, float, int)):
             delta_t = (t_f - t_0) / finite_elements
-            t_f = [delta_t * t for t in range(1, finite_elements)]
+            t_f = [t_0 + delta_t * t for t in range(1, finite_elements + 1)]
 
         x_0 = x_0 if x_0 is not None else self.x_0
 
         return self.model.simulate(
             x_0=x_0,
             t_f=t_f,
-            t_0=self.t_0,
+            t_0=t_0,
             u=u if u is not None else self.u_guess,
             p=p,
             theta=theta,
-- 
2.43.0


From e1753d833cd99cec2ba44e6e6884f902ca9b581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:56 +0000
Subject: [PATCH 017/110] fix: include only differential or only algebraic
 equations in a problem

---
 yaocptool/modelling/ocp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 152a044..8a78c09 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -286,7 +286,10 @@ class OptimalControlProblem(object):
         )
 
     def include_system_equations(self, ode=None, alg=None):
-        self.model.include_equations(ode=ode, alg=alg)
+        equations = {"ode": ode, "alg": alg}
+        self.model.include_equations(
+            **{key: eq for key, eq in equations.items() if eq is not None}
+        )
 
     def include_state(
         self,
-- 
2.43.0


From 3185ee52a36dd71206b865b5e1f3a3a45a21ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:57 +0000
Subject: [PATCH 018/110] fix: list bounds for vector states

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 8a78c09..1abc15f 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -312,9 +312,9 @@ class OptimalControlProblem(object):
         if isinstance(x_0, list):
             x_0 = vertcat(*x_0)
         if isinstance(x_min, list):
-            x_min = DM(*x_min)
+            x_min = vertcat(*x_min)
         if isinstance(x_max, list):
-            x_max = DM(*x_max)
+            x_max = vertcat(*x_max)
 
         if var.numel() != x_max.numel():
             raise ValueError(
-- 
2.43.0


From b3f6099b55ee1644be7b944bcd22a3b38952963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:57 +0000
Subject: [PATCH 019/110] fix: create_quadratic_cost does not change the
 caller's dictionary

---
 yaocptool/modelling/ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 1abc15f..1373a87 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -784,6 +784,7 @@ class OptimalControlProblem(object):
     def create_quadratic_cost(self, par_dict: Dict[str, DM]):
         self.L = SX(0)
         self.V = SX(0)
+        par_dict = dict(par_dict)
         if "x_ref" not in par_dict:
             par_dict["x_ref"] = DM.zeros(self.model.n_x)
         if "u_ref" not in par_dict:
-- 
2.43.0


From 32e11e4b64f3f243f6539854fe34c3d51ed2ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:57 +0000
Subject: [PATCH 020/110] fix: connect(replace=True) also replaces the input in
 the cost and constraints

---
 yaocptool/modelling/ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 1373a87..d869cba 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1008,7 +1008,9 @@ class OptimalControlProblem(object):
 
         self.model.connect(u, y, replace=replace)
 
-        if not replace:
+        if replace:
+            self.replace_variable(u, y)
+        else:
             if self.u_guess is not None and self.y_guess is not None:
                 self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
 
-- 
2.43.0


From 0509c7419e2c2a0ed19cf8612e66ad839bc4157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:57 +0000
Subject: [PATCH 021/110] fix: merged problems share the time variable in cost
 and constraints

---
 yaocptool/modelling/ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index d869cba..e9e2410 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -902,6 +902,8 @@ class OptimalControlProblem(object):
 
             # Merge models
             self.model.merge([problem.model])
+            self.replace_variable(problem.model.t, self.model.t)
+            self.replace_variable(problem.model.tau, self.model.tau)
 
     def set_parameter_as_optimization_parameter(
         self,
-- 
2.43.0


From e778063ba9d28b376c5ec43116ef6caae4da4707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 022/110] fix: the finite elements start at the initial time of
 the problem

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index a56f1db..d243d0b 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -107,7 +107,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
     @cached_property
     def time_breakpoints(self) -> List[float]:
-        return [self.delta_t * k for k in range(self.finite_elements + 1)]
+        return [
+            self.problem.t_0 + self.delta_t * k for k in range(self.finite_elements + 1)
+        ]
 
     @property
     def time_interpolation_controls(self) -> List[List[float]]:
-- 
2.43.0


From 48c158f0a3437d9982d0f616dac75d83928f8388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 023/110] fix: use the last_u passed to solve

---
 yaocptool/methods/base/solutionmethodsbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d243d0b..e1a817a 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -385,8 +385,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
                 )
 
             last_u = self.problem.last_u
-            par_last_u = last_u
 
+        if self.last_control_as_parameter:
+            par_last_u = last_u
         par = vertcat(p, theta_vector, par_x_0, par_last_u)
 
         if initial_guess_dict is None:
-- 
2.43.0


From a7e881a9c118cd071e37fb5348cce26712fdf7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 024/110] fix: bounds on delta_u without a previous control

---
 yaocptool/methods/base/solutionmethodsbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index e1a817a..0936371 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -275,7 +275,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
-            p=p_mx, x_0=p_mx_x_0, theta=theta, last_u=p_last_u
+            p=p_mx,
+            x_0=p_mx_x_0,
+            theta=theta,
+            last_u=p_last_u if self.last_control_as_parameter else None,
         )
 
         if has_parameters:
-- 
2.43.0


From 2c493c400dc3c64a67fc4fa8da74d9e6c31678ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 025/110] fix: solve with initial_condition_as_parameter=False

---
 yaocptool/methods/base/solutionmethodsbase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 0936371..a9a349a 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -263,8 +263,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
         theta = {i: vec(theta_mx[:, i]) for i in range(self.finite_elements)}
 
         # initial cond MX
-        p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
-
+        if self.initial_condition_as_parameter:
+            p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        else:
+            p_mx_x_0 = MX()
         # last control MX
         if self.last_control_as_parameter:
             p_last_u = MX.sym("mx_last_u", self.model.n_u)
@@ -276,7 +278,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
             p=p_mx,
-            x_0=p_mx_x_0,
+            x_0=p_mx_x_0 if self.initial_condition_as_parameter else None,
             theta=theta,
             last_u=p_last_u if self.last_control_as_parameter else None,
         )
-- 
2.43.0


From 05031b4430c791404d550b1a2b542f96fe2b632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 026/110] fix: do not share nlpsol_opts between solution
 methods

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index a9a349a..3aee539 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -67,7 +67,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         self.integrator_type = integrator_type
         self.discretization_scheme = discretization_scheme
         self.initial_condition_as_parameter = initial_condition_as_parameter
-        self.nlpsol_opts: Dict[str, Any] = nlpsol_opts
+        self.nlpsol_opts: Dict[str, Any] = dict(nlpsol_opts)
         self.initial_guess_heuristic = initial_guess_heuristic
         self.last_control_as_parameter = last_control_as_parameter
         self.initial_guess_model = None
-- 
2.43.0


From 8b66f26aeed38b5cc5c2383adb06e451ddd58c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:55 +0000
Subject: [PATCH 027/110] fix: collocation with polynomials of degree 1

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 3aee539..ff1b9db 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -166,7 +166,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if tau is None:
             tau = self.model.tau  # Collocation point
 
-        if degree == 1:
+        if degree == 1 and not point_at_t0:
             if size > 0:
                 points = vertcat(*[SX.sym(name[s], 1, degree) for s in range(size)])
             else:
-- 
2.43.0


From 8d8459736d7d987be47c6b600775cc7d0eee5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:55 +0000
Subject: [PATCH 028/110] fix: storing the solution does not change the given p
 and theta

---
 yaocptool/methods/base/solutionmethodsbase.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index ff1b9db..6800ef1 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -489,9 +489,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Initial condition, theta, and parameters used
         optimization_result.x_0 = x_0
-        optimization_result.theta = theta
-        optimization_result.p = p
-
+        optimization_result.theta = {el: DM(theta[el]) for el in theta}
+        optimization_result.p = DM(p)
         # From the problem
         for attr in ["t_0", "t_f"]:
             attr_value = getattr(self.problem, attr)
-- 
2.43.0


From aaa1867f3254c17affa58a395f2589c49c9bd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:55 +0000
Subject: [PATCH 029/110] fix: cost_as_a_sum keeps the final cost

---
 yaocptool/methods/classic/multipleshooting.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/yaocptool/methods/classic/multipleshooting.py b/yaocptool/methods/classic/multipleshooting.py
index e6eddda..2716a00 100644
--- a/yaocptool/methods/classic/multipleshooting.py
+++ b/yaocptool/methods/classic/multipleshooting.py
@@ -273,11 +273,10 @@ class MultipleShootingScheme(DiscretizationSchemeBase):
         nlp.include_equality(f_h(p))
 
         if self.solution_method.solution_class == "direct":
-            if not self.solution_method.cost_as_a_sum:
-                f_final_cost = Function(
-                    "FinalCost", [self.model.x, self.model.p], [self.problem.V]
-                )
-                cost = f_final_cost(x_var[-1][0], p)
+            f_final_cost = Function(
+                "FinalCost", [self.model.x, self.model.p], [self.problem.V]
+            )
+            cost += f_final_cost(x_var[-1][0], p)
             cost += s_cost
         nlp.set_objective(cost)
 
-- 
2.43.0


From 3e868c79dc31ec1d41ad7df8319caf3fee76af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:16 +0000
Subject: [PATCH 030/110] fix: __all__ lists names

---
 yaocptool/methods/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/yaocptool/methods/__init__.py b/yaocptool/methods/__init__.py
index dba274b..3259f5b 100644
--- a/yaocptool/methods/__init__.py
+++ b/yaocptool/methods/__init__.py
@@ -6,10 +6,10 @@ from .classic.directmethod import DirectMethod
 from .classic.indirectmethod import IndirectMethod
 
 __all__ = [
-    OptimizationResult,
-    SolutionMethodInterface,
-    SolutionMethodsBase,
-    AugmentedLagrangian,
-    DirectMethod,
-    IndirectMethod,
+    "OptimizationResult",
+    "SolutionMethodInterface",
+    "SolutionMethodsBase",
+    "AugmentedLagrangian",
+    "DirectMethod",
+    "IndirectMethod",
 ]
-- 
2.43.0


From 7a56d04967ccc6e562e2ce62421c88e2fa95ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:24 +0000
Subject: [PATCH 031/110] fix: relax the selected time equalities whatever the
 number of algebraic equations

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6694473..5d1efcf 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,7 +214,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.model.alg[self.relax_time_equality_index].numel() > 0:
+        if self.problem.g_eq[self.relax_time_equality_index].numel() > 0:
             self._relax_time_equalities()
 
         if self.relax_state_bounds:
-- 
2.43.0


From fb7ac55e1905214348f26bffdfc9e7f072d298e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:24 +0000
Subject: [PATCH 032/110] fix: guess of the relaxed algebraic variables

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 5d1efcf..9baeee0 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -312,7 +312,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # include the relaxed y_sym as controls
         u_guess = (
-            self.problem.y_guess[self.relax_algebraic_index]
+            self.problem.y_guess[self.relax_algebraic_var_index]
             if self.problem.y_guess is not None
             else None
         )
-- 
2.43.0


From 5b94deab90c92e56df4339c1d218c29263bf2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:51 +0000
Subject: [PATCH 033/110] fix: apply the solver's degree and finite elements
 before the multipliers are created

---
 yaocptool/methods/augmented_lagrangian.py | 44 +++++++++++------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 9baeee0..cc22762 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -165,6 +165,28 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             if isinstance(options, dict)
             else options
         )
+        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
+        for attr in ["degree", "finite_elements"]:
+            if (
+                attr in solver_options
+                and attr in kwargs
+                and solver_options[attr] != kwargs[attr]
+            ):
+                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
+                raise ValueError(
+                    exc_mess.format(
+                        attr,
+                        self.__class__.__name__,
+                        ocp_solver_class.__name__,
+                        kwargs[attr],
+                        solver_options[attr],
+                    )
+                )
+            elif attr in solver_options:
+                setattr(self.options, attr, solver_options[attr])
+            else:
+                solver_options[attr] = getattr(self.options, attr)
+
         #  LOGGER.setLevel(
         #      {0: logging.WARNING, 1: logging.INFO, 2: logging.DEBUG}[
         #          self.options.verbose
@@ -236,28 +258,6 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 finite_elements=self.options.finite_elements,
             )
 
-        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
-        for attr in ["degree", "finite_elements"]:
-            if (
-                attr in solver_options
-                and attr in kwargs
-                and solver_options[attr] != kwargs[attr]
-            ):
-                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
-                raise ValueError(
-                    exc_mess.format(
-                        attr,
-                        self.__class__.__name__,
-                        ocp_solver_class.__name__,
-                        kwargs[attr],
-                        solver_options[attr],
-                    )
-                )
-            elif attr in solver_options:
-                setattr(self.options, attr, solver_options[attr])
-            else:
-                solver_options[attr] = getattr(self.options, attr)
-
         #  solver_options["integrator_type"] = self.integrator_type
 
         # Initialize OCP solver
-- 
2.43.0


From 77cdaaccdcdd20b6b0ec555f72b62a70a393d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:51 +0000
Subject: [PATCH 034/110] fix: AugmentedLagrangian does not change the caller's
 solver options

---
 yaocptool/methods/augmented_lagrangian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index cc22762..8551a8e 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -147,8 +147,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             via an algebraic variable
         :param kwargs:
         """
-        if solver_options is None:
-            solver_options = {}
+        solver_options = dict(solver_options) if solver_options is not None else {}
         if options is None:
             options = {}
 
-- 
2.43.0


From 456f778c7b7b3b4ebc740d384ea9a808a2752e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:51 +0000
Subject: [PATCH 035/110] fix: the default options of the distributed augmented
 lagrangian are not shared

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index b09863c..9b8c14e 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -9,7 +9,7 @@ import logging
 import random
 import time
 from collections import defaultdict
-from dataclasses import asdict, dataclass
+from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
@@ -55,7 +55,9 @@ class DistributedAugmentedLagrangianOptions:
     ] = "cyclic"
     debug_skip_replace_by_approximation: bool = False
 
-    al_options: AugmentedLagrangianOptions = AugmentedLagrangianOptions()
+    al_options: AugmentedLagrangianOptions = field(
+        default_factory=AugmentedLagrangianOptions
+    )
 
     def __post_init__(self):
         if not isinstance(self.al_options, AugmentedLagrangianOptions):
-- 
2.43.0


From ef7751ce0622bd203e2360c14b0ea4d3ba5c2d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:59 +0000
Subject: [PATCH 036/110] fix: differential equations that are structurally
 zero keep their state

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 562e494..c27bd57 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -3,7 +3,7 @@ from collections import abc
 from itertools import islice
 from typing import Dict, List, Optional, Tuple, Union
 
-from casadi import SX, substitute, vec, vertcat
+from casadi import SX, densify, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
@@ -153,7 +153,8 @@ class ContinuousStateMixin(BaseMixin):
                 warnings.warn(
                     f'State "{x_i}" already had an ODE associated, overriding it!'
                 )
-        self._ode = {**self._ode, **dict(zip(x.nz, ode.nz))}
+        # structural zeros are equations too, do not skip them
+        self._ode = {**self._ode, **dict(zip(x.nz, densify(ode).nz))}
 
     def _include_equation_from_diff_equations(self, *args: Union[SX, EqualityEquation]):
         x = SX(0, 1)
-- 
2.43.0


From 96cdfd9a5e5d71956fa3995e08c070571e917f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 037/110] fix: connect keeps one algebraic guess per algebraic
 variable

---
 yaocptool/modelling/ocp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index e9e2410..6931a51 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1013,8 +1013,13 @@ class OptimalControlProblem(object):
         if replace:
             self.replace_variable(u, y)
         else:
-            if self.u_guess is not None and self.y_guess is not None:
-                self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+            if self.y_guess is not None:
+                self.y_guess = vertcat(
+                    self.y_guess,
+                    self.u_guess[ind_u]
+                    if self.u_guess is not None
+                    else DM.zeros(len(ind_u)),
+                )
 
             self.y_max = vertcat(self.y_max, self.u_max[ind_u])
             self.y_min = vertcat(self.y_min, self.u_min[ind_u])
-- 
2.43.0


From 7d1c64656177e8b733ab143a65f54a271eea8703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:55 +0000
Subject: [PATCH 038/110] fix: removing or connecting a control also removes
 its last value

---
 yaocptool/modelling/ocp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 6931a51..4b2cd5f 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -616,6 +616,10 @@ class OptimalControlProblem(object):
             self.u_guess = remove_variables_from_vector_by_indices(
                 to_remove, self.u_guess
             )
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(
+                to_remove, vertcat(self.last_u)
+            )
 
         self.model.remove_control(var)
 
@@ -1029,6 +1033,10 @@ class OptimalControlProblem(object):
 
         if self.u_guess is not None:
             self.u_guess = remove_variables_from_vector_by_indices(ind_u, self.u_guess)
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(
+                ind_u, vertcat(self.last_u)
+            )
 
         self.delta_u_max = remove_variables_from_vector_by_indices(
             ind_u, self.delta_u_max
-- 
2.43.0


From 344327d3e394ab6138dca53847568f446359b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:51 +0000
Subject: [PATCH 039/110] fix: plot on top of the given figures

---
 yaocptool/modelling/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 72815ea..b9e29b3 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -302,8 +302,8 @@ class DataSet:
         # for each plot asked
         for k, entry_dict in enumerate(plot_list):
             fig = (
-                figures[k]
-                if figures is not None and len(figures) < k
+                plt.figure(figures[k].number)
+                if figures is not None and k < len(figures)
                 else plt.figure(k)
             )
             used_figures.append(fig)
-- 
2.43.0


From d8a5a8fe98df8c3a40a4d5d20b28763c51754133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:51 +0000
Subject: [PATCH 040/110] fix: plot does not change the lists it is given

---
 yaocptool/modelling/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index b9e29b3..48ef5ac 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -320,6 +320,8 @@ class DataSet:
                 # if it is 'all'
                 if isinstance(indexes_or_names, str):
                     indexes_or_names = list(range(self.data[entry].size))
+                # do not change the list of the caller
+                indexes_or_names = list(indexes_or_names)
 
                 var_names = self.get_entry_names(entry)
                 only_indices = [ind for ind in indexes_or_names if isinstance(ind, int)]
-- 
2.43.0


From e907c33073389be71d914ce9b74e03a342fbd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:51 +0000
Subject: [PATCH 041/110] fix: plot accepts a list of plots and 'all', as
 documented

---
 yaocptool/modelling/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 48ef5ac..bb342b6 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -290,7 +290,9 @@ class DataSet:
         :param bool exact: If true only precise match of entry elements will be plotted, otherwise a regex match will
             be used
         """
-        if not plot_list:
+        if len(plot_list) == 1 and isinstance(plot_list[0], list):
+            plot_list = tuple(plot_list[0])
+        if not plot_list or plot_list == ("all",):
             plot_list = ({"x": "all"}, {"y": "all"}, {"u": "all"})
 
         if use_tex:
-- 
2.43.0


From e9fcace10b68040f2283eb480857ee2ca11c5d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:07 +0000
Subject: [PATCH 042/110] fix: as_dataframe skips entries without data

---
 yaocptool/modelling/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index bb342b6..75cb2a1 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -55,7 +55,7 @@ class DataSet:
     def as_dataframe(self):
         df = None
         for entry_name, entry in self.data.items():
-            if entry.is_empty:
+            if entry.is_empty or entry.time.numel() == 0:
                 continue
             time = [float(t) for t in entry.time.nz]
             #  entry_time_value_dict = [
-- 
2.43.0


From b123a674bfb52901d957e50c5f7df8e6d7bea38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:13 +0000
Subject: [PATCH 043/110] fix: as_dataframe counts structurally zero times

---
 yaocptool/modelling/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 75cb2a1..4ee364a 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -57,7 +57,7 @@ class DataSet:
         for entry_name, entry in self.data.items():
             if entry.is_empty or entry.time.numel() == 0:
                 continue
-            time = [float(t) for t in entry.time.nz]
+            time = [float(t) for t in entry.time.full().flatten()]
             #  entry_time_value_dict = [
             #      np.atleast_2d(col).T for col in horzsplit(entry.values, 1)
             #  ]
-- 
2.43.0


From dba5c702c2ed4a88f5e3fdf436c9b3e14a5eb3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:58 +0000
Subject: [PATCH 044/110] fix: ids given to nodes do not collide with the ids
 they came with

---
 yaocptool/modelling/network/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index a3e440c..50761d0 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -126,13 +126,13 @@ class Network:
         if not isinstance(nodes, list):
             nodes = [nodes]
 
+        self.graph.add_nodes_from(nodes)
+
         # if node does not have an id
         for node in nodes:
             if node.node_id is None:
                 self._set_node_an_id(node)
 
-        self.graph.add_nodes_from(nodes)
-
     def remove_connection(self, node1, node2):
 
         """
@@ -231,6 +231,8 @@ class Network:
         :return: node id
         :rtype: int
         """
+        while self.get_node_by_id(self._nodes_id_counter) is not None:
+            self._nodes_id_counter += 1
         node.node_id = self._nodes_id_counter
         self._nodes_id_counter += 1
 
-- 
2.43.0


From cfd6d0ca1967a6773e247840f1de7c317314adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:58 +0000
Subject: [PATCH 045/110] fix: inserting intermediary nodes keeps the nodes
 that are not connected

---
 yaocptool/modelling/network/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 50761d0..7d7a0f2 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -276,7 +276,7 @@ class Network:
             )
             for (node1, node2) in self.graph.edges
         }
-        self.graph = networkx.DiGraph()
+        self.graph.remove_edges_from(list(old_connections))
 
         for (node1, node2), (y, u) in old_connections.items():
             self.insert_intermediary_node(y, u, node1, node2)
-- 
2.43.0


From 53125b1e08cf93ef95849163fe1980456f75dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:58 +0000
Subject: [PATCH 046/110] fix: intermediary nodes have the initial time of the
 nodes they connect

---
 yaocptool/modelling/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 7d7a0f2..e5dd358 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -300,6 +300,7 @@ class Network:
         new_problem = OptimalControlProblem(
             name="OCP_Dummy_{}_to_{}".format(node1.name, node2.name),
             model=new_model,
+            t_0=node1.problem.t_0,
             t_f=node1.problem.t_f,
         )
 
-- 
2.43.0


From c49f311167c697117d5c2fcc3d366d3efe49888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:41 +0000
Subject: [PATCH 047/110] fix: the last control as the only parameter of the
 problem

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 6800ef1..466251f 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -252,7 +252,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         has_parameters = (
             self.model.n_p + self.model.n_theta > 0
             or self.initial_condition_as_parameter
-            or self.problem.last_u is not None
+            or self.last_control_as_parameter
         )
 
         # parameters MX
-- 
2.43.0


From 9434a6c3f2f8e495f73703329abd31dd275ef2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:48 +0000
Subject: [PATCH 048/110] fix: OptimizationResult.is_valid checked an attribute
 that does not exist

---
 yaocptool/methods/base/optimizationresult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/optimizationresult.py b/yaocptool/methods/base/optimizationresult.py
index 065092b..b67b51a 100644
--- a/yaocptool/methods/base/optimizationresult.py
+++ b/yaocptool/methods/base/optimizationresult.py
@@ -86,7 +86,7 @@ class OptimizationResult:
                     self.__class__.__name__, "time_breakpoints"
                 )
             )
-        for attr in ["objective"]:
+        for attr in ["objective_opt_problem"]:
             if getattr(self, attr) is None:
                 raise Exception(
                     "{} attribute {} is None".format(self.__class__.__name__, attr)
-- 
2.43.0


From 520508bbaf2d93990c03d9073289cd6d88be18cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:18 +0000
Subject: [PATCH 049/110] fix: initial guess by simulation without p or theta
 uses zeros, as documented

---
 yaocptool/methods/classic/collocationscheme.py | 7 +++++++
 yaocptool/methods/classic/multipleshooting.py  | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/classic/collocationscheme.py b/yaocptool/methods/classic/collocationscheme.py
index b510d14..e0969a2 100644
--- a/yaocptool/methods/classic/collocationscheme.py
+++ b/yaocptool/methods/classic/collocationscheme.py
@@ -682,6 +682,13 @@ class CollocationScheme(DiscretizationSchemeBase):
             else:
                 u = DM.zeros(self.model.n_u)
 
+        if p is None:
+            p = DM.zeros(self.model.n_p)
+        if theta is None:
+            theta = {
+                el: DM.zeros(self.model.n_theta) for el in range(self.finite_elements)
+            }
+
         if self.model.n_u_par > 0:
             u = vec(horzcat(*[u] * self.degree_control))
         else:
diff --git a/yaocptool/methods/classic/multipleshooting.py b/yaocptool/methods/classic/multipleshooting.py
index 2716a00..9807dec 100644
--- a/yaocptool/methods/classic/multipleshooting.py
+++ b/yaocptool/methods/classic/multipleshooting.py
@@ -545,7 +545,11 @@ class MultipleShootingScheme(DiscretizationSchemeBase):
             else:
                 u = DM.zeros(model.n_u)
         if p is None:
-            p = DM()
+            p = DM.zeros(self.model.n_p)
+        if theta is None:
+            theta = {
+                el: DM.zeros(self.model.n_theta) for el in range(self.finite_elements)
+            }
 
         u = vec(horzcat(*[u] * self.degree_control)) if model.n_u_par > 0 else DM()
         x_0 = self.problem.x_0
-- 
2.43.0


From 0cd0a3cc4afd7900d7ce62b74904760ac05b1644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:28 +0000
Subject: [PATCH 050/110] fix: symbols survive transport between processes (one
 serializer per message)

---
 yaocptool/util/serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/yaocptool/util/serializer.py b/yaocptool/util/serializer.py
index e1475e5..64d066b 100644
--- a/yaocptool/util/serializer.py
+++ b/yaocptool/util/serializer.py
@@ -21,15 +21,14 @@ class NewForkingPickler(mp.reduction.ForkingPickler):
 
 
 class CasadiPicklerDepickler:
-    serializer = StringSerializer()
-    deserializer = StringDeserializer(serializer.encode())
-
     def __init__(self):
         #  print("creating pickler/depickler", os.getpid())
-        self.__class__.serializer = StringSerializer()
-        self.__class__.deserializer = StringDeserializer(
-            self.__class__.serializer.encode()
-        )
+        self.serializer = StringSerializer()
+        self.deserializer = StringDeserializer(self.serializer.encode())
+
+    def __reduce__(self):
+        # The receiver of a message starts with a fresh deserializer
+        return CasadiPicklerDepickler, ()
 
     def dumps(self, var: Union[SX, MX]) -> str:
         #  print(os.getpid(), id(self.serializer), "starting to dump", repr(var))
-- 
2.43.0


From bfa68f899f2ca28ee26fefd66e9420a6bd721034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:20 +0000
Subject: [PATCH 051/110] fix: timeout gives the alarm handler back and reports
 that it did not expire

---
 yaocptool/util/timeout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index 7bd3de6..7262095 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -23,7 +23,8 @@ class timeout:
         raise TimeoutError(self.error_message)
 
     def __enter__(self):
-        signal.signal(signal.SIGALRM, self.handle_timeout)
+        self._timedout = None
+        self._previous_handler = signal.signal(signal.SIGALRM, self.handle_timeout)
         signal.alarm(self.seconds)
         return self
 
@@ -34,7 +35,9 @@ class timeout:
         traceback: TracebackType,
     ):
         signal.alarm(0)
+        signal.signal(signal.SIGALRM, self._previous_handler)
         if exc_type is None:
+            self._timedout = bool(self._timedout)
             return True
 
         max_depth = 20
-- 
2.43.0


From 80b710f4b5baa471ed060fa293c67caa1e823b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:48 +0000
Subject: [PATCH 052/110] fix: relaxed state bounds and time equalities keep
 their own multipliers

---
 yaocptool/methods/augmented_lagrangian.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 8551a8e..eb2ffc3 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -235,12 +235,14 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.problem.g_eq[self.relax_time_equality_index].numel() > 0:
-            self._relax_time_equalities()
-
+        # the relaxed states are part of relaxed_alg, whose multipliers come before
+        # those of relaxed_eq
         if self.relax_state_bounds:
             self._relax_states_constraints()
 
+        if self.problem.g_eq[self.relax_time_equality_index].numel() > 0:
+            self._relax_time_equalities()
+
         if not self.options.debug_skip_initialize:
             if not self.options.debug_skip_parametrize:
                 self._parametrize_nu()
-- 
2.43.0


From 6dbd752cc1c31ffdfbde2ff428fc021888bb5851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:48 +0000
Subject: [PATCH 053/110] fix: only_update_if_improve updates the multipliers
 of the relaxation that improved

---
 yaocptool/methods/augmented_lagrangian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index eb2ffc3..ddeb92f 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -784,7 +784,8 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                         if (error - last_error) < 0:
                             self.last_violation_error[ind] = error
                             for el in self.nu_tilde:
-                                self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                                rows = slice(ind, None, self.n_relax)
+                                self.nu_tilde[el][rows] = nu_tilde[el][rows]
                         else:
                             LOGGER.info("Error is greater than zero")
                 else:
-- 
2.43.0


From 2b4a224cff30a5efa91b9b872d4db32f9d545e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:48 +0000
Subject: [PATCH 054/110] fix: use the degree and finite_elements passed to
 AugmentedLagrangian

---
 yaocptool/methods/augmented_lagrangian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index ddeb92f..6467075 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -183,6 +183,9 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 )
             elif attr in solver_options:
                 setattr(self.options, attr, solver_options[attr])
+            elif attr in kwargs:
+                setattr(self.options, attr, kwargs[attr])
+                solver_options[attr] = kwargs[attr]
             else:
                 solver_options[attr] = getattr(self.options, attr)
 
-- 
2.43.0


From 932012df2978d7a6d2e3ab09eb072c91b15fc091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:48 +0000
Subject: [PATCH 055/110] fix: AugmentedLagrangian does not change the caller's
 options

---
 yaocptool/methods/augmented_lagrangian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6467075..a01d78e 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -8,7 +8,7 @@ Created on Sat Oct 22 16:53:36 2016
 import logging
 import time
 from collections import defaultdict
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from typing import Any, Dict, List, Literal, Optional, Type, TypedDict, Union
 
 from casadi import (
@@ -162,7 +162,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         self.options = (
             AugmentedLagrangianOptions(**options)
             if isinstance(options, dict)
-            else options
+            else replace(options)
         )
         #  make sure that the ocp_solver and the augmented_lagrangian has the same options
         for attr in ["degree", "finite_elements"]:
-- 
2.43.0


From 9a2f8c1a80cb4844beba1ed1e4bcdf93dd91a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:08 +0000
Subject: [PATCH 056/110] fix: only_update_if_improve keeps the multipliers and
 the error of the last iteration

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index a01d78e..97a27df 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -781,11 +781,11 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                     and any((errors > 0).nz)
                     and self.last_violation_error is not None
                 ):
+                    self.nu_tilde = {el: DM(nu) for el, nu in self.nu_tilde.items()}
                     for ind, (error, last_error) in enumerate(
                         zip(errors.nz, self.last_violation_error.nz)
                     ):
                         if (error - last_error) < 0:
-                            self.last_violation_error[ind] = error
                             for el in self.nu_tilde:
                                 rows = slice(ind, None, self.n_relax)
                                 self.nu_tilde[el][rows] = nu_tilde[el][rows]
-- 
2.43.0


From afd0a5b3ef386d2e5ba2fb7a10bdeda9eb4ede63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:10 +0000
Subject: [PATCH 057/110] fix: the default blocks have every node and no two
 connected nodes

---
 .../methods/network/distributedaugmetedlagrangian.py  | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 9b8c14e..0a2ab30 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -13,7 +13,6 @@ from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
-import networkx.algorithms.coloring
 from casadi import DM, SX, inf, inv, vertcat
 from erised import Proxy
 
@@ -85,15 +84,7 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
         if blocks is not None:
             self.blocks = blocks
         else:
-            coloring: Dict[Node, int] = networkx.algorithms.coloring.greedy_color(
-                self.network.graph
-            )
-            self.blocks = {
-                group_number: [node for node, _ in group]
-                for group_number, group in itertools.groupby(
-                    coloring.items(), key=lambda item: item[1]
-                )
-            }
+            self.blocks = dict(enumerate(self.network.get_map_coloring_groups()))
 
         self.nodes_proxies: Dict[Node, Proxy] = {}
 
-- 
2.43.0


From f599fcce588a5b454ceea358aae40c9330f33674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:10 +0000
Subject: [PATCH 058/110] fix: a distributed block sees the results of the
 blocks solved before it

---
 .../network/distributedaugmetedlagrangian.py      | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 0a2ab30..63ab979 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -334,13 +334,14 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
             }
             block_results = {node: future.result() for node, future in futures.items()}
 
-            result_dict.update(
-                {
-                    node: result
-                    for node, result in block_results.items()
-                    if result.success
-                }
-            )
+            successful_results = {
+                node: result
+                for node, result in block_results.items()
+                if result.success
+            }
+            result_dict.update(successful_results)
+            # the next block uses the results of this one
+            self._last_result.update(successful_results)
 
         return result_dict
 
-- 
2.43.0


From a10eac4f19d82409f1c50e9eac3d4833087f103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:10 +0000
Subject: [PATCH 059/110] fix: intermediary nodes use their updated multipliers

---
 .../methods/network/intermediary_node_solution_method.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 8953020..7769b9a 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -129,7 +129,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
 
         nu_tilde = {
-            el: vertcat(nu_p1_c_next_el, nu_c_p2_next_el)
+            el: vertcat(nu_p1_c_next_el.T, nu_c_p2_next_el.T)
             for el, (nu_p1_c_next_el, nu_c_p2_next_el) in enumerate(
                 zip(
                     horzsplit(nu_p1_c_next, self.options.degree),
@@ -158,6 +158,9 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         return errors
 
     def solve(self, theta, p=None, *args, **kwargs):
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
+
         theta_k = self.join_nu_to_theta(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
 
-- 
2.43.0


From 72280df7058ed992e4e3a31a62a2690e1a713e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:57 +0000
Subject: [PATCH 060/110] fix: the parameters of vector connections are ordered
 as their values

---
 .../network/distributedaugmetedlagrangian.py  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 63ab979..8a177f2 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -172,12 +172,19 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
                 node.problem.include_theta(u_appr_par)
 
     def _create_variable_approx(self, var: SX, tau: SX) -> Tuple[SX, SX]:
-        approx_name = [var[i].name() + "_appr" for i in range(var.numel())]
-        return create_polynomial_approximation(
-            tau,
-            var.shape[0],
-            self.options.degree,
-            name=approx_name,
+        # one element at a time: the values of the parameters are also given by element
+        approximations = [
+            create_polynomial_approximation(
+                tau,
+                1,
+                self.options.degree,
+                name=[var[i].name() + "_appr"],
+            )
+            for i in range(var.numel())
+        ]
+        return (
+            vertcat(*[approx for approx, _ in approximations]),
+            vertcat(*[par for _, par in approximations]),
         )
 
     def _get_variable_last_result(
-- 
2.43.0


From ae07b16a7ca36464313717b48981976cb117c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:57 +0000
Subject: [PATCH 061/110] fix: the Jacobi ADMM looks variables up in the
 problem that is solved

---
 yaocptool/methods/network/bipartite_jacobi_admm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/methods/network/bipartite_jacobi_admm.py b/yaocptool/methods/network/bipartite_jacobi_admm.py
index 71a8002..f55ee6a 100644
--- a/yaocptool/methods/network/bipartite_jacobi_admm.py
+++ b/yaocptool/methods/network/bipartite_jacobi_admm.py
@@ -87,8 +87,8 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
             y = connections["y"]
             u = connections["u"]
 
-            y_indices = find_variables_indices_in_vector(y, p.model.y)
-            u_indices = find_variables_indices_in_vector(u, node.model.u)
+            y_indices = find_variables_indices_in_vector(y, p.problem.model.y)
+            u_indices = find_variables_indices_in_vector(u, node.problem.model.u)
             for ind in y_indices:
                 y_data = self._get_variable_last_result(p, "y", ind)
                 for i in range(self.options.finite_elements):
@@ -103,8 +103,8 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
             y = connections["y"]
             u = connections["u"]
 
-            u_indices = find_variables_indices_in_vector(u, s.model.u)
-            y_indices = find_variables_indices_in_vector(y, node.model.y)
+            u_indices = find_variables_indices_in_vector(u, s.problem.model.u)
+            y_indices = find_variables_indices_in_vector(y, node.problem.model.y)
             for ind in u_indices:
                 u_data = self._get_variable_last_result(s, "u", ind)
                 for i in range(self.options.finite_elements):
-- 
2.43.0


From a1ea5a34fc680e200111afb5c0683ef48b6333d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:57 +0000
Subject: [PATCH 062/110] fix: only_update_if_improve of intermediary nodes
 keeps the multipliers that did not improve

---
 .../methods/network/intermediary_node_solution_method.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 7769b9a..e452d85 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -144,13 +144,17 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
                 and any((errors > 0).nz)
                 and self.last_violation_error is not None
             ):
+                self.nu_tilde = {el: DM(nu) for el, nu in self.nu_tilde.items()}
                 for ind, (error, last_error) in enumerate(
                     zip(errors.nz, self.last_violation_error.nz)
                 ):
                     if (error - last_error) < 0:
-                        self.last_violation_error[ind] = error
                         for el in self.nu_tilde:
-                            self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                            rows = slice(
+                                ind * self.options.degree,
+                                (ind + 1) * self.options.degree,
+                            )
+                            self.nu_tilde[el][rows] = nu_tilde[el][rows]
                     else:
                         print("Error is greater than zero")
             else:
-- 
2.43.0


From 3f0630fc5cafae51623c7e30d222d34540c0237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:10 +0000
Subject: [PATCH 063/110] fix: largest error of a network with a single one

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 8a177f2..9e5c8c3 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -450,7 +450,7 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
                     # error
                     node_error_last = node_error.copy()
                     max_error = max(
-                        *itertools.chain(*(val.nz for val in node_error.values()))
+                        itertools.chain(*(val.nz for val in node_error.values()))
                     )
                     if max_error < self.options.abs_tol:
                         LOGGER.info(
@@ -494,8 +494,8 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
         return self._update_parameters_serial(result_dict)
 
     def _compute_primal_dual_mu(self, mu: DM, r_k_list: List[DM], s_k_list: List[DM]):
-        r_k_1 = max(*r_k_list)
-        s_k_1 = max(*s_k_list)
+        r_k_1 = max(r_k_list)
+        s_k_1 = max(s_k_list)
         LOGGER.info(f"Primal: {r_k_1}, Dual: {s_k_1}")
 
         if r_k_1 > self.options.al_options.gamma * s_k_1:
-- 
2.43.0


From 28bd2938020e751acd870a7b72a6d80ce0620fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:10 +0000
Subject: [PATCH 064/110] fix: multipliers of a node that was not solved since
 their last update

---
 yaocptool/methods/augmented_lagrangian.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 97a27df..9c86543 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -628,6 +628,10 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         raw_solution_dict: ExtendedOptiResultDictType,
         exogenous_data: Dict[str, Dict[str, ALExogeunousData]] = None,
     ) -> DM:
+        # nu was already updated if the problem was not solved since the last update
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
+
         theta_k = join_thetas(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
         error = self._compute_new_nu_and_error(
@@ -695,6 +699,10 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.block_number is None:
             raise ValueError("Need to set block_number to use this method")
 
+        # nu was already updated if the problem was not solved since the last update
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
+
         theta_k = join_thetas(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
         error = self._compute_new_nu_and_error(
-- 
2.43.0


From fa216f50edcf727b80703a43bd7d1e4e81d5cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:28 +0000
Subject: [PATCH 065/110] fix: MPC.get_new_control no longer stops in a
 debugger

---
 yaocptool/mpc/mpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 9f2d65f..6fa7539 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -131,7 +131,6 @@ class MPC:
         #      if len(initial_guess_dict) == 1:
         #          initial_guess_dict = initial_guess_dict[0]
 
-        __import__("ipdb").set_trace()
         solutions = self.solution_method.solve(
             x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
         )
-- 
2.43.0


From a991fdf73a3759b815c3123277d2c8dbb31c7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:28 +0000
Subject: [PATCH 066/110] fix: MPC starts the next iteration from the shifted
 solution, and leaves the solution as it is

---
 yaocptool/mpc/mpc.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 6fa7539..d13cd4c 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -3,7 +3,6 @@ import time
 from functools import wraps
 from typing import List, Optional, Tuple
 
-import numpy
 from casadi import DM, Function, substitute, vertcat
 
 from yaocptool.estimation.estimator_abstract import EstimatorAbstract
@@ -297,17 +296,10 @@ class MPC:
     def step(self, decision_variables):
         collocation_scheme: CollocationScheme = self.solution_method.discretizer  # type: ignore
 
-        perturbation_percentage = 0.0
-        decision_variables *= 1 + perturbation_percentage * (
-            numpy.random.rand(*decision_variables.shape) - 0.5
-        )
         x, y, u, eta, p_opt, theta_opt = collocation_scheme.unpack_decision_variables(
             decision_variables
         )
 
-        next_initial_guess = collocation_scheme.repack_decision_variables(
-            x, y, u, eta, p_opt, theta_opt
-        )
         x.pop(0)  # remove first
         x.pop()  # remove last, which has single collocation equal to the previous
         x.append(x[-1])
@@ -325,7 +317,7 @@ class MPC:
 
         assert decision_variables.shape == next_initial_guess.shape
 
-        return next_initial_guess * 1.1
+        return next_initial_guess
 
     def _get_parameter(self, x_k, p_k):
         p = self.p
-- 
2.43.0


From 38e54a160c4006b548578018c8ce6fe46704ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:28 +0000
Subject: [PATCH 067/110] fix: MPC.run(0) runs indefinitely, as documented

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index d13cd4c..a096477 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -237,7 +237,7 @@ class MPC:
             # FIXME: Trying with function
             self.send_control(new_u)  # this advances the simulation
 
-            if k >= iterations - 1:
+            if iterations > 0 and k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
                 break
 
-- 
2.43.0


From ef63253d3763cf3d0f60becb462177cc0745529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:28 +0000
Subject: [PATCH 068/110] fix: MPC does not write the estimates in the
 parameter vector it was given

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index a096477..5063b61 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -320,7 +320,7 @@ class MPC:
         return next_initial_guess
 
     def _get_parameter(self, x_k, p_k):
-        p = self.p
+        p = DM(self.p) if self.p is not None else None
 
         if self.mean_as_parameter:
             for mean_index, p_index in self.mean_p_indices:
-- 
2.43.0


From 73924978a7ca0a349af3fac76e19ca7f54439005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:28 +0000
Subject: [PATCH 069/110] fix: MPC gives its theta to the solution method

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 5063b61..741101f 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -131,7 +131,7 @@ class MPC:
         #          initial_guess_dict = initial_guess_dict[0]
 
         solutions = self.solution_method.solve(
-            x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
+            x_0=x_k, initial_guess=self.initial_guess, p=p, theta=self.theta, last_u=u_k
         )
         self.initial_guess = self.step(solutions.raw_decision_variables)
 
-- 
2.43.0


From f34524a163b01140d9f2bd0b32c8f8fb4102e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:28 +0000
Subject: [PATCH 070/110] fix: covariance of the IdealEstimator is a matrix

---
 yaocptool/estimation/ideal_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/ideal_estimator.py b/yaocptool/estimation/ideal_estimator.py
index 2020907..be2e8ad 100644
--- a/yaocptool/estimation/ideal_estimator.py
+++ b/yaocptool/estimation/ideal_estimator.py
@@ -19,6 +19,6 @@ class IdealEstimator(EstimatorAbstract):
         """
 
         x_k = y_k[: self.n_x]
-        cov_x_k = DM.zeros(x_k.shape)
+        cov_x_k = DM.zeros(self.n_x, self.n_x)
 
         return x_k, cov_x_k
-- 
2.43.0


From 423b97bf583316667b474802807d5370d0f9df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:28 +0000
Subject: [PATCH 071/110] fix: PlantSimulation.set_control replaces a control
 function set before

---
 yaocptool/mpc/plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 3af29ba..8df3413 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -146,6 +146,7 @@ class PlantSimulation(PlantInterface):
                 )
             )
         self.u = u
+        self.u_function = None
 
         # go to next time
         self._advance()
-- 
2.43.0


From 3cc7a3efc3e1cba4f11c7961e6050465838b64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:28 +0000
Subject: [PATCH 072/110] fix: size of the measurements of PlantSimulation is
 the number of rows of c_matrix

---
 yaocptool/mpc/plant.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 8df3413..1427960 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -238,11 +238,11 @@ class PlantSimulation(PlantInterface):
 
         self.dataset.create_entry(
             "meas_wo_noise",
-            self.model.n_x,
-            ["meas_wo_noise_" + str(i) for i in range(self.model.n_x)],
+            self.c_matrix.shape[0],
+            ["meas_wo_noise_" + str(i) for i in range(self.c_matrix.shape[0])],
         )
         self.dataset.create_entry(
             "meas",
-            self.model.n_x,
-            ["meas_" + str(i) for i in range(self.model.n_x)],
+            self.c_matrix.shape[0],
+            ["meas_" + str(i) for i in range(self.c_matrix.shape[0])],
         )
-- 
2.43.0


From 77fe0c091abafc751c0ae569328b52dcf85a6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:28 +0000
Subject: [PATCH 073/110] fix: first measurement of PlantSimulation is the
 measured value, not the state

---
 yaocptool/mpc/plant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 1427960..d4eee7b 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -62,7 +62,6 @@ class PlantSimulation(PlantInterface):
         self.t_s = float(t_s)
 
         self.x = x_0
-        self.measurement = x_0
         self.u = u_0 if u_0 is not None else DM.zeros(self.model.n_u)
         self.t = self.t_0 = float(t_0)
 
@@ -102,6 +101,7 @@ class PlantSimulation(PlantInterface):
 
         meas_data = self._measure(self.x, self.y_guess)
 
+        self.measurement = meas_data["measurement"]
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
         if self.has_noise and self.noise_seed is not None:
             numpy.random.seed(self.noise_seed)
-- 
2.43.0


From 2c3c975a770d21fea2b7b377f9ea32edbdeff63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:54 +0000
Subject: [PATCH 074/110] fix: PlantSimulation measures with the d_matrix it
 was given

---
 yaocptool/mpc/plant.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index d4eee7b..0cf6bed 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -73,8 +73,7 @@ class PlantSimulation(PlantInterface):
             if c_matrix is not None
             else DM.eye(self.model.n_x + self.model.n_y)
         )
-        self.d_matrix = d_matrix if d_matrix is not None else DM(0.0)
-        self.d_matrix = None
+        self.d_matrix = d_matrix
 
         self.p = None
         self.theta = None
@@ -192,6 +191,8 @@ class PlantSimulation(PlantInterface):
 
     def _measure(self, x, y):
         measurement_wo_noise = mtimes(self.c_matrix, vertcat(x, y))
+        if self.d_matrix is not None:
+            measurement_wo_noise = measurement_wo_noise + mtimes(self.d_matrix, self.u)
         if self.has_noise:
             n_rand = DM(
                 numpy.random.multivariate_normal([0] * self.r_n.shape[0], self.r_n)
-- 
2.43.0


From 2222d08657fecb889e4e79135f52f9fae2deb03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:54 +0000
Subject: [PATCH 075/110] fix: PlantSimulation takes the noise and integrator
 options it documents

---
 yaocptool/mpc/plant.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 0cf6bed..969368c 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -40,6 +40,11 @@ class PlantSimulation(PlantInterface):
         verbosity: int = 1,
         super_samling: Union[int, List[float]] = 1,
         u_function: Optional[Function] = None,
+        integrator_options: Optional[dict] = None,
+        has_noise: bool = False,
+        r_n: Optional[DM] = None,
+        r_v: Optional[DM] = None,
+        noise_seed: Optional[int] = None,
     ):
         """
             Plant which uses a SystemModel.simulate to obtain the measurements.
@@ -79,10 +84,12 @@ class PlantSimulation(PlantInterface):
         self.theta = None
 
         # Noise
-        self.has_noise = False
-        self.r_n = DM(0.0)
-        self.r_v = DM(0.0)
-        self.noise_seed = None
+        self.has_noise = has_noise
+        self.r_n = r_n if r_n is not None else DM(0.0)
+        self.r_v = r_v if r_v is not None else DM(0.0)
+        self.noise_seed = noise_seed
+        if self.has_noise and self.noise_seed is not None:
+            numpy.random.seed(self.noise_seed)
 
         # Options
         self.verbosity = verbosity
@@ -91,7 +98,7 @@ class PlantSimulation(PlantInterface):
             if isinstance(super_samling, int)
             else super_samling
         )
-        self.integrator_options = None
+        self.integrator_options = integrator_options
         self.dataset = DataSet(name="Plant")
 
         self._iterations = 0
@@ -102,8 +109,6 @@ class PlantSimulation(PlantInterface):
 
         self.measurement = meas_data["measurement"]
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
-        if self.has_noise and self.noise_seed is not None:
-            numpy.random.seed(self.noise_seed)
 
     def get_measurement(self) -> Tuple[float, DM, DM]:
         """Return the plant measurement of a simulated model and advance time by 't_s'.
-- 
2.43.0


From 2c0b934d236b59c6972c04c8c0f7664a95bc8e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:54 +0000
Subject: [PATCH 076/110] fix: PlantSimulation has the defaults it documents

---
 yaocptool/mpc/plant.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 969368c..6eb233e 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -31,10 +31,10 @@ class PlantSimulation(PlantInterface):
         self,
         model: SystemModel,
         x_0: DM,
-        u_0: DM,
-        y_guess: float,
+        u_0: Optional[DM] = None,
+        y_guess: Optional[DM] = None,
         t_0: float = 0.0,
-        t_s: float = 0.0,
+        t_s: float = 1.0,
         c_matrix: Optional[DM] = None,
         d_matrix: Optional[DM] = None,
         verbosity: int = 1,
@@ -52,7 +52,7 @@ class PlantSimulation(PlantInterface):
         :param SystemModel model: simulation model
         :param DM x_0: initial condition
         :param DM t_s: (default: 1) sampling time
-        :param DM u: (default: 0) initial control
+        :param DM u_0: (default: 0) initial control
         :param DM y_guess: initial guess for algebraic variables for simulation
         :param DM t_0: (default: 0) initial time
         :param dict integrator_options: integrator options
@@ -70,7 +70,7 @@ class PlantSimulation(PlantInterface):
         self.u = u_0 if u_0 is not None else DM.zeros(self.model.n_u)
         self.t = self.t_0 = float(t_0)
 
-        self.y_guess = y_guess
+        self.y_guess = y_guess if y_guess is not None else DM.zeros(self.model.n_y)
         self.u_function = u_function
 
         self.c_matrix = (
-- 
2.43.0


From 80abe9246f0b53316cd0d5a494dc99ef325af61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:54 +0000
Subject: [PATCH 077/110] fix: MPC sends the control it was told to send

---
 yaocptool/mpc/mpc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 741101f..3c59b33 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -171,8 +171,10 @@ class MPC:
 
         :param u: DM
         """
-        #  self.plant.set_control(u)
+        self.plant.set_control(u)  # this advances the simulation
 
+    def send_control_function(self):
+        """Sent the first control polynomial of the last solution to the plant."""
         self.plant.set_control_function(
             self._make_control_function(
                 self._get_solution_parameters(
@@ -234,8 +236,10 @@ class MPC:
                     )
                 )
 
-            # FIXME: Trying with function
-            self.send_control(new_u)  # this advances the simulation
+            if self.solution_method.degree_control > 1:
+                self.send_control_function()  # this advances the simulation
+            else:
+                self.send_control(new_u)  # this advances the simulation
 
             if iterations > 0 and k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
-- 
2.43.0


From 6af395ac8c8842d98c4cf7e73522107fb4929d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:54 +0000
Subject: [PATCH 078/110] fix: degree of the control polynomial sent to the
 plant

---
 yaocptool/mpc/mpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 3c59b33..6b5703f 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -147,7 +147,10 @@ class MPC:
 
     def _make_control_function(self, control_parameters):
         u_pol, u_par = create_polynomial_approximation(
-            self.plant.model.tau, self.plant.model.n_u, self.solution_method.degree, "u"
+            self.plant.model.tau,
+            self.plant.model.n_u,
+            self.solution_method.degree_control,
+            "u",
         )
 
         u_pol = substitute(u_pol, u_par, control_parameters)
-- 
2.43.0


From ad88b92a0f195e4254fe8eab41794b35c8e8bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:32 +0000
Subject: [PATCH 079/110] fix: MPC with a scheme that is not collocation

---
 yaocptool/mpc/mpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 6b5703f..0826bee 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -301,7 +301,9 @@ class MPC:
             self.send_control(u)  # this advances the simulation
 
     def step(self, decision_variables):
-        collocation_scheme: CollocationScheme = self.solution_method.discretizer  # type: ignore
+        collocation_scheme = self.solution_method.discretizer
+        if not isinstance(collocation_scheme, CollocationScheme):
+            return decision_variables
 
         x, y, u, eta, p_opt, theta_opt = collocation_scheme.unpack_decision_variables(
             decision_variables
-- 
2.43.0


From 46c84859b5fd3d0f54a88ef914338226c5b3edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:14 +0000
Subject: [PATCH 080/110] fix: estimators use the present names of the
 variables and of the data set

---
 .../estimation/extended_kalman_filter.py      | 59 +++++++++----------
 yaocptool/estimation/pce_kalman_filter.py     | 12 ++--
 .../estimation/unscented_kalman_filter.py     | 33 +++++------
 3 files changed, 46 insertions(+), 58 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 9fc18a2..08a9052 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -70,34 +70,29 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ekf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ekf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
+        self.dataset.create_entry("x", self.model.n_x, [
+            "ekf_" + self.model.x[i].name() for i in range(self.model.n_x)
+        ])
+
+        self.dataset.create_entry("y", self.model.n_y, [
+            "ekf_" + self.model.y[i].name() for i in range(self.model.n_y)
+        ])
+
+        self.dataset.create_entry("P", self.model.n_x ** 2, [
             "ekf_P_" + str(i) + str(j)
             for i in range(self.model.n_x)
             for j in range(self.model.n_x)
-        ]
+        ])
 
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
+        self.dataset.create_entry("P_y", self.model.n_y ** 2, [
             "ekf_P_y_" + str(i) + str(j)
             for i in range(self.model.n_y)
             for j in range(self.model.n_y)
-        ]
+        ])
 
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
+        self.dataset.create_entry("meas", self.n_meas, [
             "ekf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        ])
 
     @property
     def n_meas(self):
@@ -178,14 +173,14 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Obtain the matrix G (linearized measurement model)
         measurement_sym = self._get_measurement_from_prediction(
-            self.model.x_sym, self.model.y_sym, self.model.u_sym
+            self.model.x, self.model.y, self.model.u
         )
         dh_dx_aug_sym = jacobian(
-            measurement_sym, vertcat(self.model.x_sym, self.model.y_sym)
+            measurement_sym, vertcat(self.model.x, self.model.y)
         )
         f_dh_dx_aug = Function(
             "dh_dx_aug",
-            [self.model.x_sym, self.model.y_sym, self.model.u_sym],
+            [self.model.x, self.model.y, self.model.u],
             [dh_dx_aug_sym],
         )
 
@@ -239,27 +234,27 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         :type model: SystemModel
         """
         aug_model = SystemModel("aug_linearized_EKF_model")
-        aug_model.include_state(self.model.x_sym)
-        aug_model.include_state(self.model.y_sym)
-        aug_model.include_control(self.model.u_sym)
-        aug_model.include_parameter(self.model.p_sym)
-        aug_model.include_theta(self.model.theta_sym)
+        aug_model.include_state(self.model.x)
+        aug_model.include_state(self.model.y)
+        aug_model.include_control(self.model.u)
+        aug_model.include_parameter(self.model.p)
+        aug_model.include_theta(self.model.theta)
 
         # remove u_par (self.model.u_par model.u_par)
         all_sym = list(self.model.all_sym)
 
         # Mean
         a_func = Function(
-            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x_sym)]
+            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x)]
         )
         b_func = Function(
-            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y_sym)]
+            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y)]
         )
         c_func = Function(
-            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x_sym)]
+            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x)]
         )
         d_func = Function(
-            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y_sym)]
+            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y)]
         )
 
         x_lin = aug_model.create_parameter("x_lin", self.model.n_x)
@@ -281,7 +276,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
             ),
         )
 
-        x_aug = vertcat(model.x_sym, model.y_sym)
+        x_aug = vertcat(model.x, model.y)
         aug_model.include_equations(ode=[mtimes(a_aug_matrix, x_aug)])
 
         # Covariance
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index e9fa0d4..57841a3 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -72,17 +72,15 @@ class PCEKalmanFilter(EstimatorAbstract):
         )
 
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "est_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
+        self.dataset.create_entry("x", self.model.n_x, [
+            "est_" + self.model.x[i].name() for i in range(self.model.n_x)
+        ])
 
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
+        self.dataset.create_entry("P", self.model.n_x ** 2, [
             "P_" + str(i) + str(j)
             for i in range(self.model.n_x)
             for j in range(self.model.n_x)
-        ]
+        ])
 
     @property
     def n_pol_parameters(self):
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 44e5c6d..d698b88 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -61,34 +61,29 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ukf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ukf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
+        self.dataset.create_entry("x", self.model.n_x, [
+            "ukf_" + self.model.x[i].name() for i in range(self.model.n_x)
+        ])
+
+        self.dataset.create_entry("y", self.model.n_y, [
+            "ukf_" + self.model.y[i].name() for i in range(self.model.n_y)
+        ])
+
+        self.dataset.create_entry("P", self.model.n_x ** 2, [
             "ukf_P_" + str(i) + str(j)
             for i in range(self.model.n_x)
             for j in range(self.model.n_x)
-        ]
+        ])
 
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
+        self.dataset.create_entry("P_y", self.model.n_y ** 2, [
             "ukf_P_y_" + str(i) + str(j)
             for i in range(self.model.n_y)
             for j in range(self.model.n_y)
-        ]
+        ])
 
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
+        self.dataset.create_entry("meas", self.n_meas, [
             "ukf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        ])
 
         # Choose the UKF implementation
         if self.implementation == "standard":
-- 
2.43.0


From b2c4013c3ad6e0ec73f14662f7440684cda58c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:54 +0000
Subject: [PATCH 081/110] fix: estimators record the covariance of the
 algebraic variables as a vector

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 +++-
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 08a9052..5b65d31 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -224,7 +224,9 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
-        self.dataset.insert_data("P_y", t_k, p_k[self.model.n_x :, self.model.n_x :])
+        self.dataset.insert_data(
+            "P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :])
+        )
 
         return self.x_mean, self.p_k
 
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index d698b88..1c77d73 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -243,7 +243,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-            "P_y", t_k, cov_x_aug[self.model.n_x :, self.model.n_x :]
+            "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
         return x_mean, cov_x_aug
-- 
2.43.0


From 97e1379e951155e654440d99d06e6216bb2c2d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:54 +0000
Subject: [PATCH 082/110] fix: ExtendedKalmanFilter linearizes the model at the
 applied control

---
 yaocptool/estimation/extended_kalman_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 5b65d31..53b4e29 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -159,9 +159,13 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Covariance
         all_sym_values = self.model.put_values_in_all_sym_format(
-            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta
+            t=self.t,
+            x=x_pred,
+            y=y_pred,
+            p=self.p,
+            theta=self.theta[0] if isinstance(self.theta, dict) else self.theta,
+            u_par=u_k,
         )
-        all_sym_values = all_sym_values
 
         a_aug_matrix = self.a_aug_matrix_func(*all_sym_values)
         transition_matrix = expm(a_aug_matrix * self.t_s)
-- 
2.43.0


From 77bd714a34386f3d7e3459e421831c2d4186a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:54 +0000
Subject: [PATCH 083/110] fix: UnscentedKalmanFilter.estimate returns the
 state, without the algebraic variables

---
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 1c77d73..84fa86f 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -246,7 +246,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
             "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
-        return x_mean, cov_x_aug
+        return self.x_mean, self.p_k
 
     def _estimate_square_root_ukf(self, t_k, y_k, u_k):
         raise NotImplementedError
-- 
2.43.0


From 286eabd2a386f8467b4f3167e98fbd6131a4451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:54 +0000
Subject: [PATCH 084/110] fix: the time of the estimators advances with each
 estimation

---
 yaocptool/estimation/extended_kalman_filter.py  | 1 +
 yaocptool/estimation/pce_kalman_filter.py       | 1 +
 yaocptool/estimation/unscented_kalman_filter.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 53b4e29..e5bc41f 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -222,6 +222,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = p_k
         self.p_k = p_k[: self.model.n_x, : self.model.n_x]
+        self.t = self.t + self.t_s
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 57841a3..73c858b 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -136,6 +136,7 @@ class PCEKalmanFilter(EstimatorAbstract):
 
         self.x_mean = x_hat_k
         self.p_k = p_k
+        self.t = self.t + self.t_s
 
         self.dataset.insert_data("x", t_k, self.x_mean)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 84fa86f..2748ee5 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -236,6 +236,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = cov_x_aug_pred
         self.p_k = cov_x_aug[: self.model.n_x, : self.model.n_x]
+        self.t = self.t + self.t_s
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-- 
2.43.0


From a44c450703684a8df9ea470a99c70c63cf988dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:54 +0000
Subject: [PATCH 085/110] fix: tenth Hermite polynomial

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 805e648..bee762e 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -493,7 +493,7 @@ def get_ls_factor(n_uncertain, n_samples, pc_order, lamb=0.0):
     he10fcn = Function(
         "He10fcn",
         [x],
-        [x ** 10 - 45 * x ** 8 + 640 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
+        [x ** 10 - 45 * x ** 8 + 630 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
     )
     helist = [
         he0fcn,
-- 
2.43.0


From bfa1cf5051ca0853d126eae93320d26077086fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:54 +0000
Subject: [PATCH 086/110] fix: variance of a polynomial chaos expansion with
 the exact norms of its polynomials

---
 yaocptool/stochastic/pce.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index bee762e..90a33af 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -546,13 +546,9 @@ def get_ls_factor(n_uncertain, n_samples, pc_order, lamb=0.0):
     ls_factor = DM(ls_factor)
 
     # Calculation of expectations for variance function
-    n_sample_expectation_vector = 100000
-    x_sample = np.random.multivariate_normal(
-        np.zeros(n_uncertain), np.eye(n_uncertain), n_sample_expectation_vector
+    # E[He_i(x) * He_j(x)] = i! if i == j, and 0 otherwise, for x ~ N(0, 1)
+    expectation_vector = DM(
+        [1.0] + [float(np.prod([factorial(e) for e in exp])) for exp in exps]
     )
-    psi_squared_sum = DM.zeros(SX.size(psi)[0])
-    for i in range(n_sample_expectation_vector):
-        psi_squared_sum += psi_fcn(x_sample[i, :]) ** 2
-    expectation_vector = psi_squared_sum / n_sample_expectation_vector
 
     return ls_factor, expectation_vector, psi_fcn
-- 
2.43.0


From d086df2a86ebe6d89a15bfda0b0492878936150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:54 +0000
Subject: [PATCH 087/110] fix: covariances of the PCEKalmanFilter, also with
 more samples than polynomials

---
 yaocptool/estimation/pce_kalman_filter.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 73c858b..d1fcf57 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -67,7 +67,7 @@ class PCEKalmanFilter(EstimatorAbstract):
                 )
             )
 
-        self._ls_factor, _, _ = get_ls_factor(
+        self._ls_factor, self._exp_phi, _ = get_ls_factor(
             self.n_uncertain, self.n_samples, self.pc_order
         )
 
@@ -84,7 +84,7 @@ class PCEKalmanFilter(EstimatorAbstract):
 
     @property
     def n_pol_parameters(self):
-        return factorial(self.n_uncertain + self.pc_order) / (
+        return factorial(self.n_uncertain + self.pc_order) // (
             factorial(self.n_uncertain) * factorial(self.pc_order)
         )
 
@@ -202,7 +202,7 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(self.model.n_x):
             for j in range(self.model.n_x):
                 p_k_minus[i, j] = (
-                    sum([a_x[i][k] * a_x[j][k] for k in range(1, self.n_samples)])
+                    self._covariance(a_x[i], a_x[j])
                     + self.r_v[i, j]
                 )
 
@@ -234,24 +234,24 @@ class PCEKalmanFilter(EstimatorAbstract):
         p_yk_yk = DM.zeros(n_meas, n_meas)
         for i in range(n_meas):
             for j in range(n_meas):
-                p_yk_yk[i, j] = sum(
-                    [a_meas[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
-                )
+                p_yk_yk[i, j] = self._covariance(a_meas[i], a_meas[j])
         p_yk_yk = p_yk_yk + self.r_n
 
         # get cross-covariance
         p_xk_yk = DM.zeros(self.model.n_x, n_meas)
         for i in range(self.model.n_x):
             for j in range(n_meas):
-                p_xk_yk[i, j] = sum(
-                    [a_x[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
-                )
+                p_xk_yk[i, j] = self._covariance(a_x[i], a_meas[j])
 
         # k_gain = mtimes(p_xk_yk, inv(p_yk_yk))
         k_gain = solve(p_yk_yk.T, p_xk_yk.T).T
 
         return x_hat_k_minus, p_k_minus, y_meas_hat_k_minus, p_yk_yk, k_gain
 
+    def _covariance(self, a_i, a_j):
+        """Covariance of two expressions, given their polynomial coefficients"""
+        return mtimes((a_i[1:] * a_j[1:]).T, self._exp_phi[1:])
+
     def _get_sampled_states(self, x_mean, x_cov):
         x_samples = sample_parameter_normal_distribution_with_sobol(
             x_mean, x_cov, self.n_samples
-- 
2.43.0


From 53c716b91fb07aec10774d9b2a4ed2bfafd52854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:44 +0000
Subject: [PATCH 088/110] fix: estimators with one state and no algebraic
 variables

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 ++--
 yaocptool/estimation/unscented_kalman_filter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index e5bc41f..7179190 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -202,7 +202,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_f + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_f
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, :], u_f
         )
         if self.verbosity > 1:
             print("Predicted state: {}".format(x_pred))
@@ -226,7 +226,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 2748ee5..4179bed 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -216,7 +216,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_pred + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_k
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, :], u_k
         )
         print("Predicted state: {}".format(x_pred))
         print("Prediction error: {}".format(y_k - meas_pred))
@@ -240,7 +240,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-- 
2.43.0


From 6d398ede59312f7d8b195a155f41a8633301fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:47 +0000
Subject: [PATCH 089/110] fix: stochastic problems use the present names of the
 model

---
 yaocptool/modelling/stochastic_ocp.py |   6 +-
 yaocptool/stochastic/pce.py           | 110 +++++++++++++-------------
 2 files changed, 57 insertions(+), 59 deletions(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index b2efbaa..972f882 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -119,15 +119,15 @@ class StochasticOCP(OptimalControlProblem):
 
     def get_p_without_p_unc(self):
         return remove_variables_from_vector_by_indices(
-            self.get_p_unc_indices(), self.model.p_sym
+            self.get_p_unc_indices(), self.model.p
         )
 
     def get_p_unc_indices(self):
-        return find_variables_indices_in_vector(self.p_unc, self.model.p_sym)
+        return find_variables_indices_in_vector(self.p_unc, self.model.p)
 
     def get_uncertain_initial_cond_indices(self):
         return find_variables_indices_in_vector(
-            self.uncertain_initial_conditions, self.model.x_0_sym
+            self.uncertain_initial_conditions, self.model.x_0
         )
 
     def include_time_chance_inequality(self, ineq, prob, rhs=None, when="default"):
diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 90a33af..0d9cecf 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -117,25 +117,25 @@ class PCEConverter:
         cost = self.socp.L
 
         original_vars = vertcat(
-            self.socp.model.x_sym,
-            self.socp.model.y_sym,
-            self.socp.model.u_sym,
-            self.socp.model.p_sym,
-            self.socp.model.theta_sym,
+            self.socp.model.x,
+            self.socp.model.y,
+            self.socp.model.u,
+            self.socp.model.p,
+            self.socp.model.theta,
             self.socp.model.t_sym,
             self.socp.model.tau_sym,
-            self.socp.model.x_0_sym,
+            self.socp.model.x_0,
         )
 
         new_vars = vertcat(
-            model_s.x_sym,
-            model_s.y_sym,
-            model_s.u_sym,
-            model_s.p_sym,
-            model_s.theta_sym,
+            model_s.x,
+            model_s.y,
+            model_s.u,
+            model_s.p,
+            model_s.theta,
             model_s.t_sym,
             model_s.tau_sym,
-            model_s.x_0_sym,
+            model_s.x_0,
         )
 
         cost = substitute(cost, original_vars, new_vars)
@@ -260,10 +260,10 @@ class PCEConverter:
         problem.name = self.socp.name + "_PCE"
 
         problem.p_opt = substitute(
-            self.socp.p_opt, self.socp.get_p_without_p_unc(), problem.model.p_sym
+            self.socp.p_opt, self.socp.get_p_without_p_unc(), problem.model.p
         )
         problem.theta_opt = substitute(
-            self.socp.theta_opt, self.socp.model.theta_sym, problem.model.theta_sym
+            self.socp.theta_opt, self.socp.model.theta, problem.model.theta
         )
 
         problem.x_max = repmat(vertcat(self.socp.x_max, inf), self.n_samples)
@@ -282,33 +282,33 @@ class PCEConverter:
 
         problem.t_f = self.socp.t_f
 
-        if depends_on(self.socp.g_eq, self.socp.model.x_sym) or depends_on(
-            self.socp.g_eq, self.socp.model.y_sym
+        if depends_on(self.socp.g_eq, self.socp.model.x) or depends_on(
+            self.socp.g_eq, self.socp.model.y
         ):
             raise NotImplementedError(
-                'Case where "g_eq" depends on "model.x_sym" or "model.y_sym" is not implemented '
+                'Case where "g_eq" depends on "model.x" or "model.y" is not implemented '
             )
 
-        if depends_on(self.socp.g_ineq, self.socp.model.x_sym) or depends_on(
-            self.socp.g_ineq, self.socp.model.y_sym
+        if depends_on(self.socp.g_ineq, self.socp.model.x) or depends_on(
+            self.socp.g_ineq, self.socp.model.y
         ):
             raise NotImplementedError(
-                'Case where "g_ineq" depends on "model.x_sym" '
-                'or "model.y_sym" is not implemented '
+                'Case where "g_ineq" depends on "model.x" '
+                'or "model.y" is not implemented '
             )
 
         original_vars = vertcat(
-            self.socp.model.u_sym,
+            self.socp.model.u,
             self.socp.get_p_without_p_unc(),
-            self.socp.model.theta_sym,
+            self.socp.model.theta,
             self.socp.model.t_sym,
             self.socp.model.tau_sym,
         )
 
         new_vars = vertcat(
-            problem.model.u_sym,
-            problem.model.p_sym,
-            problem.model.theta_sym,
+            problem.model.u,
+            problem.model.p,
+            problem.model.theta,
             problem.model.t_sym,
             problem.model.tau_sym,
         )
@@ -329,7 +329,7 @@ class PCEConverter:
 
         for i in range(self.socp.n_uncertain_initial_condition):
             ind = self.socp.get_uncertain_initial_cond_indices()[i]
-            x_ind_s = problem.model.x_0_sym[ind :: (self.socp.model.n_x + 1)]
+            x_ind_s = problem.model.x_0[ind :: (self.socp.model.n_x + 1)]
             problem.h_initial = substitute(
                 problem.h_initial,
                 x_ind_s,
@@ -373,16 +373,13 @@ class PCEConverter:
         sampled_parameters_p_unc = sampled_parameters[: self.socp.n_p_unc, :]
         model = SystemModel(name=self.socp.model.name + "_PCE")
 
-        model.include_control(self.socp.model.u_sym)
+        model.include_control(self.socp.model.u)
         model.include_parameter(self.socp.get_p_without_p_unc())
-        model.include_theta(self.socp.model.theta_sym)
+        model.include_theta(self.socp.model.theta)
 
-        u_global = model.u_sym
-        p_global = model.p_sym
-        theta_global = model.theta_sym
-
-        t_global = model.t_sym
-        tau_global = model.tau_sym
+        u_global = model.u
+        p_global = model.p
+        theta_global = model.theta
 
         cost_list = []
         for s in range(self.n_samples):
@@ -391,23 +388,24 @@ class PCEConverter:
             # cost of sample
             cost_ode = self._create_cost_ode_of_sample(model_s)
             cost_s = model_s.create_state("cost_" + str(s))
-            model_s.include_system_equations(ode=cost_ode)
+            model_s.include_equations(ode=cost_ode, x=cost_s)
 
             # replace the parameter variable with the sampled variable
-            p_unc_s = model_s.p_sym.get(False, self.socp.get_p_unc_indices())
+            p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
 
             model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
             model_s.remove_parameter(p_unc_s)
 
             # replace the model variables with the global variables
-            model_s.replace_variable(model_s.u_sym, u_global)
-            model_s.replace_variable(model_s.p_sym, p_global)
-            model_s.replace_variable(model_s.theta_sym, theta_global)
-            model_s.remove_control(model_s.u_sym)
-            model_s.remove_parameter(model_s.p_sym)
-            model_s.remove_theta(model_s.theta_sym)
-            model_s.t_sym = t_global
-            model_s.tau_sym = tau_global
+            model_s.replace_variable(model_s.u, u_global)
+            model_s.replace_variable(model_s.p, p_global)
+            model_s.replace_variable(model_s.theta, theta_global)
+            if model_s.n_u > 0:
+                model_s.remove_control(model_s.u)
+            if model_s.n_p > 0:
+                model_s.remove_parameter(model_s.p)
+            if model_s.n_theta > 0:
+                model_s.remove_theta(model_s.theta)
 
             # merge the sample model in the unique model
             model.merge(model_s)
@@ -428,32 +426,32 @@ class PCEConverter:
         """
         expr_list = []
         for s in range(self.n_samples):
-            x_s = model.x_sym[
+            x_s = model.x[
                 s * (self.socp.model.n_x + 1) : (s + 1) * (self.socp.model.n_x + 1)
             ][: self.socp.model.n_x]
-            x_0_s = model.x_0_sym[
+            x_0_s = model.x_0[
                 s * (self.socp.model.n_x + 1) : (s + 1) * (self.socp.model.n_x + 1)
             ][: self.socp.model.n_x]
-            y_s = model.y_sym[s * self.socp.model.n_y : (s + 1) * self.socp.model.n_y]
+            y_s = model.y[s * self.socp.model.n_y : (s + 1) * self.socp.model.n_y]
 
             original_vars = vertcat(
-                self.socp.model.x_sym,
-                self.socp.model.y_sym,
-                self.socp.model.u_sym,
+                self.socp.model.x,
+                self.socp.model.y,
+                self.socp.model.u,
                 self.socp.get_p_without_p_unc(),
-                self.socp.model.theta_sym,
+                self.socp.model.theta,
                 self.socp.model.t_sym,
                 self.socp.model.tau_sym,
-                self.socp.model.x_0_sym,
+                self.socp.model.x_0,
                 self.socp.p_unc,
             )
 
             new_vars = vertcat(
                 x_s,
                 y_s,
-                model.u_sym,
-                model.p_sym,
-                model.theta_sym,
+                model.u,
+                model.p,
+                model.theta,
                 model.t_sym,
                 model.tau_sym,
                 x_0_s,
-- 
2.43.0


From 1d94ebd88a11feef1294d60cf8b8dca25b54ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:47 +0000
Subject: [PATCH 090/110] fix: the PCE problem starts at the initial time of
 the stochastic problem

---
 yaocptool/stochastic/pce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 0d9cecf..c3fc556 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -280,6 +280,7 @@ class PCEConverter:
         problem.p_opt_min = self.socp.p_opt_min
         problem.theta_opt_min = self.socp.theta_opt_min
 
+        problem.t_0 = self.socp.t_0
         problem.t_f = self.socp.t_f
 
         if depends_on(self.socp.g_eq, self.socp.model.x) or depends_on(
-- 
2.43.0


From b0a417b3b32423d98c869117836ace24586b7d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:47 +0000
Subject: [PATCH 091/110] fix: the PCE problem does not share the times of the
 constraints with the stochastic problem

---
 yaocptool/stochastic/pce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index c3fc556..666965c 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -325,8 +325,8 @@ class PCEConverter:
 
         problem.g_eq = substitute(self.socp.g_eq, original_vars, new_vars)
         problem.g_ineq = substitute(self.socp.g_ineq, original_vars, new_vars)
-        problem.time_g_eq = self.socp.time_g_eq
-        problem.time_g_ineq = self.socp.time_g_ineq
+        problem.time_g_eq = list(self.socp.time_g_eq)
+        problem.time_g_ineq = list(self.socp.time_g_ineq)
 
         for i in range(self.socp.n_uncertain_initial_condition):
             ind = self.socp.get_uncertain_initial_cond_indices()[i]
-- 
2.43.0


From b96dee14a7bc87e5ecded081f106a7f2e152d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:47 +0000
Subject: [PATCH 092/110] fix: statistics of expressions with uncertain initial
 conditions

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 666965c..1bb320f 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -456,7 +456,7 @@ class PCEConverter:
                 model.t_sym,
                 model.tau_sym,
                 x_0_s,
-                self.sampled_parameters[:, s],
+                self.sampled_parameters[: self.socp.n_p_unc, s],
             )
 
             new_exp = substitute(expr, original_vars, new_vars)
-- 
2.43.0


From deed3e2aade40615e2633c205de2c87ab0794fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:47 +0000
Subject: [PATCH 093/110] fix: the PCE problem has the parameter constraints of
 the stochastic problem

---
 yaocptool/stochastic/pce.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 1bb320f..7f3946f 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -322,6 +322,7 @@ class PCEConverter:
                 ),
             )
         problem.h_final = substitute(self.socp.h_final, original_vars, new_vars)
+        problem.h = substitute(self.socp.h, original_vars, new_vars)
 
         problem.g_eq = substitute(self.socp.g_eq, original_vars, new_vars)
         problem.g_ineq = substitute(self.socp.g_ineq, original_vars, new_vars)
@@ -362,7 +363,7 @@ class PCEConverter:
         )
 
         problem.parametrized_control = self.socp.parametrized_control
-        problem.positive_objective = self.socp.parametrized_control
+        problem.positive_objective = self.socp.positive_objective
         problem.NULL_OBJ = self.socp.NULL_OBJ
 
         if not is_equal(self.socp.S, 0) or not is_equal(self.socp.V, 0):
-- 
2.43.0


From e05f375d2d9d16c0c9db51176e5ce62d73ab144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:47 +0000
Subject: [PATCH 094/110] fix: include_time_chance_inequality checks the size
 of prob

---
 yaocptool/modelling/stochastic_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index 972f882..fd2e7e6 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -167,7 +167,7 @@ class StochasticOCP(OptimalControlProblem):
                 'Given inequality does not have the same dimensions of the provided "rhs". '
                 "Size of ineq: {}, size of rhs: {}".format(ineq.shape, rhs.shape)
             )
-        if not ineq.numel() == rhs.numel():
+        if not ineq.numel() == prob.numel():
             raise ValueError(
                 'Given inequality does not have the same dimensions of the provided "prob". '
                 "Size of ineq: {}, size of prob: {}".format(ineq.shape, prob.shape)
-- 
2.43.0


From 3245813988a2e898bfbfa8292d07e62bbfa8ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:19 +0000
Subject: [PATCH 095/110] fix: stochastic problem with only uncertain initial
 conditions

---
 yaocptool/stochastic/pce.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 7f3946f..9143830 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -393,10 +393,11 @@ class PCEConverter:
             model_s.include_equations(ode=cost_ode, x=cost_s)
 
             # replace the parameter variable with the sampled variable
-            p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
+            if self.socp.n_p_unc > 0:
+                p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
 
-            model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
-            model_s.remove_parameter(p_unc_s)
+                model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
+                model_s.remove_parameter(p_unc_s)
 
             # replace the model variables with the global variables
             model_s.replace_variable(model_s.u, u_global)
-- 
2.43.0


From 7b8d12f1237f66ba4519cd62467df76d72739933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:40 +0000
Subject: [PATCH 096/110] fix: refused control parametrization must leave the
 model unchanged

---
 yaocptool/modelling/mixins/control_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index 572a72d..f56c564 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -95,11 +95,11 @@ class ControlMixin(BaseMixin):
         for u_i in u.nz:
             if self.control_is_parametrized(u_i):
                 raise ValueError(f'The control "{u_i}" is already parametrized.')
-            # to get have a new memory address
-            self._parametrized_controls = self._parametrized_controls + [u_i]
 
         # Remove u from u_par if they are going to be parametrized
         self.u_par = remove_variables_from_vector(u, self.u_par)
+        # to get have a new memory address
+        self._parametrized_controls = self._parametrized_controls + list(u.nz)
         if u_par is not None:
             self.u_par = vertcat(self.u_par, u_par)
 
-- 
2.43.0


From c7d0f1a477b4cdb7fbf8d8db8a399a2476bdbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:54 +0000
Subject: [PATCH 097/110] fix: table of the results of three or more nodes

---
 yaocptool/methods/base/distributed_optimization_result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/distributed_optimization_result.py b/yaocptool/methods/base/distributed_optimization_result.py
index 2323e27..f497e26 100644
--- a/yaocptool/methods/base/distributed_optimization_result.py
+++ b/yaocptool/methods/base/distributed_optimization_result.py
@@ -31,7 +31,7 @@ class DistibutedOptimizationResult:
 
     def as_dataframe(self):
         df = None
-        for result in self.results.values():
+        for node, result in self.results.items():
             res_df = result.dataset.as_dataframe()
             df = (
                 pd.merge(
@@ -40,6 +40,8 @@ class DistibutedOptimizationResult:
                     how="outer",
                     left_index=True,
                     right_index=True,
+                    # entries that several nodes have (e.g. "nu")
+                    suffixes=("", f"_{node.node_id}"),
                 )
                 if df is not None
                 else res_df
-- 
2.43.0


From 5b0082795ade68807424317e31948e9ffb5144f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:18 +0000
Subject: [PATCH 098/110] fix: augmented Lagrangian without iterations is
 refused

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 9c86543..b54fd21 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -542,8 +542,8 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         #  if self.opt_problem is None:
         #  self.create_optimization_problem()
 
-        raw_solution_dict = None
         # initialize variables
+        raw_solution_dict = n_it = p_k = theta_k = error = None
         t_0 = time.time()
         for n_it in range(self.options.max_iter):
             t_1 = time.time()
-- 
2.43.0


From 0a7dbffbf3dae9faaffca9701ff5725b05a4b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:59 +0000
Subject: [PATCH 099/110] fix: only_update_if_improve with the primal-dual
 penalty rule

---
 yaocptool/methods/augmented_lagrangian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index b54fd21..de9831d 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -708,6 +708,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         error = self._compute_new_nu_and_error(
             p=p_k, theta=theta_k, raw_solution_dict=raw_solution_dict
         )
+        self.last_violation_error = error
         r_k_1 = mmax(fabs(error))
         s_k_1 = -DM.inf()
 
-- 
2.43.0


From 8edfba15a2c11444702d95214ba04e520399302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:36 +0000
Subject: [PATCH 100/110] fix: PCEConverter repeats the initial conditions
 instead of the additional initial equalities

The initial conditions of the samples are already there; what follows
them in h_initial of the stochastic problem is what has to be carried over.
---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 9143830..10df93a 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -318,7 +318,7 @@ class PCEConverter:
             problem.h_initial = vertcat(
                 problem.h_initial,
                 substitute(
-                    self.socp.h_initial[: self.socp.model.n_x], original_vars, new_vars
+                    self.socp.h_initial[self.socp.model.n_x :], original_vars, new_vars
                 ),
             )
         problem.h_final = substitute(self.socp.h_final, original_vars, new_vars)
-- 
2.43.0


From aae121e9fc2742dca42180f32c054ca42a8b926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:26 +0000
Subject: [PATCH 101/110] fix: removing states together with something that is
 not a state leaves the model half changed

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index c27bd57..7bb0d0b 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -78,11 +78,14 @@ class ContinuousStateMixin(BaseMixin):
         return x_0
 
     def remove_state(self, var: SX):
+        for x_i in var.nz:
+            if x_i not in self._ode:
+                raise ValueError(f'State "{x_i}" is not in this model')
         indices = find_variables_indices_in_vector(var, self.x)
         self.x = remove_variables_from_vector(var, self.x)
         self.x_0 = remove_variables_from_vector_by_indices(indices, self.x_0)
         for x_i in var.nz:
-            del self._ode[x_i]
+            self._ode.pop(x_i, None)
 
     def replace_variable(self, original: SX, replacement: SX):
         if original.numel() != replacement.numel():
-- 
2.43.0


From 02d443dcf777a5dcd0531120fe8d3826e01bc397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:26 +0000
Subject: [PATCH 102/110] fix: rejected equations leave part of their
 declaration in the model

---
 .../modelling/mixins/continuous_states_mixin.py  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 7bb0d0b..8466879 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -109,9 +109,19 @@ class ContinuousStateMixin(BaseMixin):
         Differential equations can passed via `ode` kw argument with a `x` positional
         argument or via equallity in positional arguments.
         """
-        if callable(getattr(super(), "include_equations", None)):
-            super().include_equations(*args, **kwargs)
-
+        previous_ode = self._ode
+        try:
+            self._include_differential_equations(*args, **kwargs)
+            if callable(getattr(super(), "include_equations", None)):
+                super().include_equations(*args, **kwargs)
+        except Exception:
+            # rejected equations leave the model as it was
+            self._ode = previous_ode
+            raise
+
+    def _include_differential_equations(
+        self, *args: SX, **kwargs: Union[SX, List[SX]]
+    ):
         if "ode" not in kwargs and "x" in kwargs:
             raise ValueError(
                 "`x` is not given, but is `ode` given, what do I do with this `x`?"
-- 
2.43.0


From 33203830129e9a5fade0d8e490f3ae5337a20a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:27 +0000
Subject: [PATCH 103/110] fix: a state rejected for its equation stays in the
 model

---
 .../modelling/mixins/continuous_states_mixin.py   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 8466879..bb213dc 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -64,17 +64,22 @@ class ContinuousStateMixin(BaseMixin):
             if x_i in self._ode:
                 raise ValueError(f'State "{x_i}" already in this model')
 
-        self.x = vertcat(self.x, var)
-
         if x_0 is None:
             x_0 = vertcat(*[SX.sym(var_i.name()) for var_i in var.nz])
+
+        previous = self.x, self.x_0, self._ode
+        self.x = vertcat(self.x, var)
         self.x_0 = vertcat(self.x_0, x_0)
 
         # crate entry for included state
-        for x_i in var.nz:
-            self._ode[x_i] = None
+        self._ode = {**self._ode, **{x_i: None for x_i in var.nz}}
         if ode is not None:
-            self.include_equations(ode=ode, x=var)
+            try:
+                self.include_equations(ode=ode, x=var)
+            except Exception:
+                # a rejected state leaves the model as it was
+                self.x, self.x_0, self._ode = previous
+                raise
         return x_0
 
     def remove_state(self, var: SX):
-- 
2.43.0


From 7d2ef589f5e7c7d57896745e11da8ed5b7023d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:27 +0000
Subject: [PATCH 104/110] fix: a rejected removal of an algebraic variable or a
 control changes the model

---
 yaocptool/modelling/mixins/algebraic_mixin.py | 3 ++-
 yaocptool/modelling/mixins/control_mixin.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/mixins/algebraic_mixin.py b/yaocptool/modelling/mixins/algebraic_mixin.py
index 48cfdb8..2518736 100644
--- a/yaocptool/modelling/mixins/algebraic_mixin.py
+++ b/yaocptool/modelling/mixins/algebraic_mixin.py
@@ -79,9 +79,10 @@ class AlgebraicMixin(BaseMixin):
             self.include_equations(alg=alg)
 
     def remove_algebraic(self, var: SX, eq: SX = None):
-        self.y = remove_variables_from_vector(var, self.y)
+        y = remove_variables_from_vector(var, self.y)
         if eq is not None:
             self.alg = remove_variables_from_vector(eq, self.alg)
+        self.y = y
 
     def replace_variable(self, original: SX, replacement: SX):
         # TODO: Remove or reinstate
diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index f56c564..3f7f118 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -56,11 +56,12 @@ class ControlMixin(BaseMixin):
         self.u_par = vertcat(self.u_par, var)
 
     def remove_control(self, var: SX):
+        u = remove_variables_from_vector(var, self.u)
+        self.u_par = remove_variables_from_vector(var, self.u_par)
         self.u_expr = remove_variables_from_vector_by_indices(
             find_variables_indices_in_vector(var, self.u), self.u_expr
         )
-        self.u = remove_variables_from_vector(var, self.u)
-        self.u_par = remove_variables_from_vector(var, self.u_par)
+        self.u = u
 
     def replace_variable(self, original: SX, replacement: SX):
         if original.numel() != replacement.numel():
-- 
2.43.0


From d79998722e1f15074b6572df306630ec70d1761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 105/110] fix: connecting something that is not an input
 changes the model before it is rejected

---
 yaocptool/modelling/system_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index cf8b0d8..536de8b 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -417,6 +417,8 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         assert (
             u.numel() == y.numel()
         ), f'Size of "u" and "y" "are not the same, u={u.numel()} and y={y.numel()}'
+        if len(find_variables_indices_in_vector(u, self.u_par)) < u.numel():
+            raise ValueError(f'"{u}" is not a (free) input of the model')
 
         if replace:
             self.replace_variable(u, y)
-- 
2.43.0


From 89aae5ef6b0f97c1aa6f7df8b1e0074e25facbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:01 +0000
Subject: [PATCH 106/110] fix: p, theta and last_u of wrong sizes that add up
 to the right total are accepted

---
 yaocptool/methods/base/solutionmethodsbase.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 466251f..a4c29a6 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -393,6 +393,18 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         if self.last_control_as_parameter:
             par_last_u = last_u
+
+        # sizes, one by one: together they could add up by chance
+        sizes = [("p", p, self.model.n_p)]
+        if self.last_control_as_parameter:
+            sizes.append(("last_u", last_u, self.model.n_u))
+        for i in range(self.finite_elements):
+            sizes.append((f"theta[{i}]", theta[i], self.model.n_theta))
+        for name, value, size in sizes:
+            if vertcat(value).numel() != size:
+                raise ValueError(
+                    f"Size of given {name} is {vertcat(value).numel()}, expected {size}"
+                )
         par = vertcat(p, theta_vector, par_x_0, par_last_u)
 
         if initial_guess_dict is None:
-- 
2.43.0


From fd9d69c2b131e1c7c7a0b01c4078f6deb2393bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:58 +0000
Subject: [PATCH 107/110] fix: a data set accepts samples that do not have the
 size of the entry

---
 yaocptool/modelling/dataset.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 4ee364a..25fd172 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -147,6 +147,14 @@ class DataSet:
                 "time.shape={} and value.shape={}".format(time.shape[1], value.shape)
             )
 
+        if time.shape[1] > 0 and time.shape[0] != 1:
+            raise ValueError(f'"time" should be a row, time.shape={time.shape}')
+        size = self.data[entry].size
+        if value.shape[1] > 0 and size is not None and value.shape[0] != size:
+            raise ValueError(
+                f'Number of rows of "value" ({value.shape[0]}) is not the size of the entry ({size})'
+            )
+
         self.data[entry].values = horzcat(self.data[entry].values, value)
         self.data[entry].time = horzcat(self.data[entry].time, time)
 
-- 
2.43.0


From 5e9d6a1694180edee2a9744a39fde346898a8b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:58 +0000
Subject: [PATCH 108/110] fix: a rejected extension of a data set leaves part
 of the other one's samples in it

---
 yaocptool/modelling/dataset.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 25fd172..f11a21a 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -182,19 +182,23 @@ class DataSet:
         """
 
         for entry in other_dataset.data:
-            if entry not in self.data:
-                self.create_entry(
-                    entry,
-                    size=other_dataset.get_entry_size(entry),
-                    names=other_dataset.get_entry_names(entry),
-                )
-            if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
+            if entry in self.data and self.get_entry_size(
+                entry
+            ) != other_dataset.get_entry_size(entry):
                 raise ValueError(
                     "The size of the same entry is different in the two datasets, "
                     "{}!={}".format(
                         self.get_entry_size(entry), other_dataset.get_entry_size(entry)
                     )
                 )
+
+        for entry in other_dataset.data:
+            if entry not in self.data:
+                self.create_entry(
+                    entry,
+                    size=other_dataset.get_entry_size(entry),
+                    names=other_dataset.get_entry_names(entry),
+                )
             self.insert_data(
                 entry,
                 time=other_dataset.data[entry].time,
-- 
2.43.0


From f4c89bc4499da54a837f40ea797e9eca2b35de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:20 +0000
Subject: [PATCH 109/110] fix: a data set extended with a new entry shares the
 list of names with its source

---
 yaocptool/modelling/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index f11a21a..c36b1e3 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -197,7 +197,7 @@ class DataSet:
                 self.create_entry(
                     entry,
                     size=other_dataset.get_entry_size(entry),
-                    names=other_dataset.get_entry_names(entry),
+                    names=list(other_dataset.get_entry_names(entry)),
                 )
             self.insert_data(
                 entry,
-- 
2.43.0


From bbb603c0b68783d8825edd157d379df721b00277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:38 +0000
Subject: [PATCH 110/110] fix: an MPC whose problem has a single finite element
 can go on after its first iteration

---
 yaocptool/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 0826bee..d5875c6 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -309,16 +309,16 @@ class MPC:
             decision_variables
         )
 
-        x.pop(0)  # remove first
         x.pop()  # remove last, which has single collocation equal to the previous
         x.append(x[-1])
+        x.pop(0)  # remove first
         x.append([x[-1][-1]])
 
-        y.pop(0)
         y.append(y[-1])
+        y.pop(0)
 
-        u.pop(0)
         u.append(u[-1])
+        u.pop(0)
 
         next_initial_guess = collocation_scheme.repack_decision_variables(
             x, y, u, eta, p_opt, theta_opt
-- 
2.43.0

