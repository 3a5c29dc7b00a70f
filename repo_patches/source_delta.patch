From 104e4f6fe40f3bb35889a50651eb5e3b6ea920a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 01/59] fix: Objective.add() modifies the objective when the
 cost function is rejected or already present

The name, dtype and optimization/auxiliary checks ran interleaved with the
registration, so a rejected cost function stayed half registered; re-adding a
cost function warned that nothing was done but registered its variables again,
so a later erase() left them behind. Check first, then register.
---
 theseus/core/objective.py | 99 +++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 46 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 6b8121f..e35825e 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -155,6 +155,52 @@ class Objective:
 
         self.__tensor_ref = torch.empty(1, device=self.device, dtype=self.dtype)
 
+    def _check_variables_of_new_cost_function(self, cost_function: CostFunction):
+        new_variables: Dict[str, Variable] = {}
+        for function in [cost_function, cost_function.weight]:
+            for variable in itertools.chain(function.optim_vars, function.aux_vars):
+                # Check that variables have name and correct dtype
+                if variable.name is None:
+                    raise ValueError(
+                        f"Variables added to an objective must be named, but "
+                        f"{function.name} has an unnamed variable."
+                    )
+                if variable.dtype != self.dtype:
+                    raise ValueError(
+                        f"Tried to add variable {variable.name} with dtype "
+                        f"{variable.dtype} but objective's dtype is {self.dtype}."
+                    )
+                # Check that names are unique
+                known_variable = self._all_variables.get(
+                    variable.name, new_variables.get(variable.name, variable)
+                )
+                if variable is not known_variable:
+                    raise ValueError(
+                        f"Two different variable objects with the "
+                        f"same name ({variable.name}) are not allowed "
+                        "in the same objective."
+                    )
+                new_variables[variable.name] = variable
+
+        if not self._allow_mixed_optim_aux_vars:
+            optim_vars_names = set(var.name for var in cost_function.optim_vars)
+            aux_vars_names = set(
+                var.name
+                for var in itertools.chain(
+                    cost_function.aux_vars, cost_function.weight.aux_vars
+                )
+            )
+            weight_optim_vars_names = set(
+                var.name for var in cost_function.weight.optim_vars
+            )
+            if (optim_vars_names | weight_optim_vars_names) & (
+                aux_vars_names | self.aux_vars.keys()
+            ) or aux_vars_names & self.optim_vars.keys():
+                raise ValueError(
+                    "Objective does not support a variable being both "
+                    "an optimization variable and an auxiliary variable."
+                )
+
     def _add_function_variables(
         self,
         function: TheseusFunction,
@@ -173,26 +219,7 @@ class Objective:
             self_vars_of_this_type = self.aux_vars  # type: ignore
 
         for variable in function_vars:
-            # Check that variables have name and correct dtype
-            if variable.name is None:
-                raise ValueError(
-                    f"Variables added to an objective must be named, but "
-                    f"{function.name} has an unnamed variable."
-                )
-            if variable.dtype != self.dtype:
-                raise ValueError(
-                    f"Tried to add variable {variable.name} with dtype "
-                    f"{variable.dtype} but objective's dtype is {self.dtype}."
-                )
-            # Check that names are unique
-            if variable.name in self._all_variables:
-                if variable is not self._all_variables[variable.name]:
-                    raise ValueError(
-                        f"Two different variable objects with the "
-                        f"same name ({variable.name}) are not allowed "
-                        "in the same objective."
-                    )
-            else:
+            if variable.name not in self._all_variables:
                 self._all_variables[variable.name] = variable
                 assert variable not in self_var_to_fn_map
                 self_var_to_fn_map[variable] = []
@@ -248,9 +275,13 @@ class Objective:
                     "This cost function has already been added to the objective, "
                     "nothing to be done."
                 )
-        else:
-            self.cost_functions[cost_function.name] = cost_function
+                return
 
+        # all checks on variables are done before modifying any of the containers, so
+        # that the objective is not modified if the cost function cannot be added
+        self._check_variables_of_new_cost_function(cost_function)
+
+        self.cost_functions[cost_function.name] = cost_function
         self.current_version += 1
         # ----- Book-keeping for the cost function ------- #
         # adds information about the optimization variables in this cost function
@@ -285,30 +316,6 @@ class Objective:
 
         self.cost_functions_for_weights[cost_function.weight].append(cost_function)
 
-        optim_vars_names = [
-            var.name
-            for var in itertools.chain(
-                cost_function.optim_vars, cost_function.weight.optim_vars
-            )
-        ]
-        aux_vars_names = [
-            var.name
-            for var in itertools.chain(
-                cost_function.aux_vars, cost_function.weight.aux_vars
-            )
-        ]
-        if not self._allow_mixed_optim_aux_vars:
-            dual_var_err_msg = (
-                "Objective does not support a variable being both "
-                + "an optimization variable and an auxiliary variable."
-            )
-            for optim_name in optim_vars_names:
-                if self.has_aux_var(optim_name):
-                    raise ValueError(dual_var_err_msg)
-            for aux_name in aux_vars_names:
-                if self.has_optim_var(aux_name):
-                    raise ValueError(dual_var_err_msg)
-
     def get_cost_function(self, name: str) -> CostFunction:
         """Returns a reference to the cost function with the given name.
 
-- 
2.43.0


From 35c4d5bb5dab5def8a538c436cdb8881879d5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 02/59] fix: Objective.error() with temporary inputs also
 reverts auxiliary variables, and reverts when evaluation fails

---
 theseus/core/objective.py | 55 +++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index e35825e..c6c7e1c 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -591,32 +591,37 @@ class Objective:
                 concatenation of all cost functions error vectors. The order corresponds
                 to the order in which cost functions were added to the objective.
         """
-        old_tensors = {}
-        if input_tensors is not None:
-            if not also_update:
-                for var in self.optim_vars:
-                    old_tensors[var] = self.optim_vars[var].tensor
-            # Update vectorization only if the input tensors will be used for a
-            # persistent update.
-            self.update(input_tensors=input_tensors, _update_vectorization=also_update)
-
-        # Current behavior when vectorization is on, is to always compute the error.
-        # One could potentially optimize by only recompute when `input_tensors`` is
-        # not None, and serving from the jacobians cache. However, when robust cost
-        # functions are present this results in incorrect rescaling of error terms
-        # so we are currently avoiding this optimization. Optimizers also compute error
-        # by passing `input_tensors`, so for optimizers the current version should be
-        # good enough.
-        error_vector = torch.cat(
-            [cf.weighted_error() for cf in self._get_error_iter()], dim=1
-        )
-
+        old_tensors: Dict[str, torch.Tensor] = {}
         if input_tensors is not None and not also_update:
-            # This line reverts back to the old tensors if a persistent update wasn't
-            # required (i.e., `also_update is False`).
-            # In this case, we pass _update_vectorization=False because
-            # vectorization wasn't updated in the first call to `update()`.
-            self.update(old_tensors, _update_vectorization=False)
+            for name in input_tensors:
+                if name in self._all_variables:
+                    old_tensors[name] = self._all_variables[name].tensor
+
+        try:
+            if input_tensors is not None:
+                # Update vectorization only if the input tensors will be used for a
+                # persistent update.
+                self.update(
+                    input_tensors=input_tensors, _update_vectorization=also_update
+                )
+
+            # Current behavior when vectorization is on, is to always compute the error.
+            # One could potentially optimize by only recompute when `input_tensors`` is
+            # not None, and serving from the jacobians cache. However, when robust cost
+            # functions are present this results in incorrect rescaling of error terms
+            # so we are currently avoiding this optimization. Optimizers also compute
+            # error by passing `input_tensors`, so for optimizers the current version
+            # should be good enough.
+            error_vector = torch.cat(
+                [cf.weighted_error() for cf in self._get_error_iter()], dim=1
+            )
+        finally:
+            if input_tensors is not None and not also_update:
+                # This line reverts back to the old tensors if a persistent update
+                # wasn't required (i.e., `also_update is False`).
+                # In this case, we pass _update_vectorization=False because
+                # vectorization wasn't updated in the first call to `update()`.
+                self.update(old_tensors, _update_vectorization=False)
         return error_vector
 
     def error_metric(
-- 
2.43.0


From 0f7e1f8a308ae3ee29198055f128c6a0103cc66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 03/59] fix: vectorized Objective.error() follows the order in
 which cost functions were added

---
 theseus/core/vectorizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 880732e..a5b577b 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -395,7 +395,11 @@ class Vectorize:
                 schema: [_CostFunctionWrapper(cf.cost_fn) for cf in cf_list]
                 for schema, cf_list in self._schema_dict.items()
             }
-            ret = [cf for cf_list in schema_dict.values() for cf in cf_list]
+            # Serve the results in the order in which cost functions were added
+            wrappers = {
+                cf.cost_fn: cf for cf_list in schema_dict.values() for cf in cf_list
+            }
+            ret = [wrappers[cf.cost_fn] for cf in self._cost_fn_wrappers]
         for schema, cost_fn_wrappers in schema_dict.items():
             if len(cost_fn_wrappers) == 1:
                 self._handle_singleton_wrapper(schema, cost_fn_wrappers, mode)
-- 
2.43.0


From 9f08d39dffa52e724226bef5a3b4d0d1bf3308da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 04/59] fix: vectorized retraction broadcasts variables with
 batch size 1 like the unvectorized one

---
 theseus/core/vectorizer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index a5b577b..a30ba6d 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -427,14 +427,12 @@ class Vectorize:
         ] = {}
 
         start_idx = 0
-        batch_size = -1
+        # Variables with batch size 1 are broadcast to the batch size of delta
+        batch_size = delta.shape[0]
         # Create var info by looping variables in the given order
         # All variables of the same type get grouped together, and their deltas saved
         for var in ordering:
-            if batch_size == -1:
-                batch_size = var.shape[0]
-            else:
-                assert batch_size == var.shape[0]
+            batch_size = max(batch_size, var.shape[0])
 
             delta_slice = delta[:, start_idx : start_idx + var.dof()]
             start_idx += var.dof()
@@ -450,14 +448,18 @@ class Vectorize:
             # Get the vectorized tensor that holds all the current variable tensors.
             # The resulting shape is (N * b, M), b is batch size, N is the number of
             # variables in the group, and M is the data shape for this class
-            vectorized_tensor = torch.cat([v.tensor for v in var_list], dim=0)
+            vectorized_tensor = torch.cat(
+                [Vectorize._expand(v.tensor, batch_size) for v in var_list], dim=0
+            )
             assert (
                 vectorized_tensor.shape
                 == (n_vars * batch_size,) + vectorized_tensor.shape[1:]
             )
             # delta_list is a list of N tensors of shape (b, d), where
             # d is var.dof(). After vectorization, we get tensor of shape (N * b, d)
-            vectorized_delta = torch.cat(delta_list, dim=0)
+            vectorized_delta = torch.cat(
+                [Vectorize._expand(d, batch_size) for d in delta_list], dim=0
+            )
             assert vectorized_delta.shape == (n_vars * batch_size, dof)
 
             # Retract the vectorized tensor, then redistribute to the variables
-- 
2.43.0


From 2cea6c3d9e87f237721877e3adf500b163f15f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 05/59] fix: Objective.error() broadcasts errors of cost
 functions whose variables have batch size 1

---
 theseus/core/objective.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index c6c7e1c..70acef8 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -612,9 +612,10 @@ class Objective:
             # so we are currently avoiding this optimization. Optimizers also compute
             # error by passing `input_tensors`, so for optimizers the current version
             # should be good enough.
-            error_vector = torch.cat(
-                [cf.weighted_error() for cf in self._get_error_iter()], dim=1
-            )
+            errors = [cf.weighted_error() for cf in self._get_error_iter()]
+            # Errors that only depend on variables with batch size 1 are broadcast
+            batch_size = max((e.shape[0] for e in errors), default=1)
+            error_vector = torch.cat([e.expand(batch_size, -1) for e in errors], dim=1)
         finally:
             if input_tensors is not None and not also_update:
                 # This line reverts back to the old tensors if a persistent update
-- 
2.43.0


From 1497c13e6e6112bbe4b0e1c779b796ee66ba6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 06/59] fix: adding or erasing cost functions no longer leaves
 a vectorized objective evaluating the old structure

---
 theseus/core/objective.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 70acef8..9e21b78 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -281,6 +281,9 @@ class Objective:
         # that the objective is not modified if the cost function cannot be added
         self._check_variables_of_new_cost_function(cost_function)
 
+        # vectorization containers don't include the new cost function
+        self.disable_vectorization()
+
         self.cost_functions[cost_function.name] = cost_function
         self.current_version += 1
         # ----- Book-keeping for the cost function ------- #
@@ -434,6 +437,9 @@ class Objective:
         """
         self.current_version += 1
         if name in self.cost_functions:
+            # vectorization containers still include the erased cost function
+            self.disable_vectorization()
+
             cost_function = self.cost_functions[name]
             # erase variables associated to this cost function (if needed)
             self._erase_function_variables(cost_function, optim_vars=True)
-- 
2.43.0


From 657fd19f07e275d2c9e3972b6aa1128bdab8996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 07/59] fix: robust cost functions with flatten_dims accept
 batched radii (also when vectorized)

---
 theseus/core/robust_cost_function.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 8198fcb..7a449b8 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -87,12 +87,12 @@ class RobustCostFunction(CostFunction):
     def weighted_error(self) -> torch.Tensor:
         weighted_error = self.cost_function.weighted_error()
         if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
+            # shape (batch_size, dim), so that the radius broadcasts per batch element
+            error_loss = self._evaluate_loss(weighted_error**2)
+            return (error_loss + RobustCostFunction._EPS).sqrt()
+
         squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
         error_loss = self._evaluate_loss(squared_norm)
-
-        if self.flatten_dims:
-            return (error_loss.reshape(-1, self.dim()) + RobustCostFunction._EPS).sqrt()
         # The return value is a hacky way to make it so that
         # ||weighted_error||^2 = error_loss
         # By doing this we avoid having to change the objective's error computation
@@ -118,20 +118,16 @@ class RobustCostFunction(CostFunction):
             weighted_error,
         ) = self.cost_function.weighted_jacobians_error()
         if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-            for i, wj in enumerate(weighted_jacobians):
-                weighted_jacobians[i] = wj.view(-1, 1, wj.shape[2])
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
+            # shape (batch_size, dim), so that the radius broadcasts per batch element
+            squared_norm = weighted_error**2
+        else:
+            squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
         rescale = (self._linearize(squared_norm) + RobustCostFunction._EPS).sqrt()
 
         rescaled_jacobians = [
-            rescale.view(-1, 1, 1) * jacobian for jacobian in weighted_jacobians
+            rescale.unsqueeze(-1) * jacobian for jacobian in weighted_jacobians
         ]
         rescaled_error = rescale * weighted_error
-        if self.flatten_dims:
-            return [
-                rj.reshape(-1, self.dim(), rj.shape[2]) for rj in rescaled_jacobians
-            ], rescaled_error.reshape(-1, self.dim())
         return rescaled_jacobians, rescaled_error
 
     def dim(self) -> int:
-- 
2.43.0


From 1d3d49643c18df696a78b4cabce3cdf0dec9630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 08/59] fix: Objective.copy() supports variables used several
 times by a cost function and its weight

---
 theseus/core/objective.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 9e21b78..c8fa17f 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -689,30 +689,17 @@ class Objective:
             new_cost_function.weight = old_to_new_cost_weight_map[cost_function.weight]
             new_cost_functions.append(new_cost_function)
 
-        # Handle case where a variable is copied in 2+ cost functions or cost weights,
-        # since only a single copy should be maintained by objective
+        # Handle case where a variable is copied in 2+ cost functions or cost weights
+        # (or in several places of the same one), since only a single copy should be
+        # maintained by objective
+        new_variables: Dict[str, Variable] = {}
         for cost_function in new_cost_functions:
-            # CostFunction
-            for i, var in enumerate(cost_function.optim_vars):
-                if new_objective.has_optim_var(var.name):
-                    cost_function.set_optim_var_at(
-                        i, new_objective.optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
-            # CostWeight
-            for i, var in enumerate(cost_function.weight.optim_vars):
-                if var.name in new_objective.cost_weight_optim_vars:
-                    cost_function.weight.set_optim_var_at(
-                        i, new_objective.cost_weight_optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.weight.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.weight.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
+            for fn in [cost_function, cost_function.weight]:
+                for i, var in enumerate(fn.optim_vars):
+                    fn.set_optim_var_at(i, new_variables.setdefault(var.name, var))
+                for i, aux_var in enumerate(fn.aux_vars):
+                    fn.set_aux_var_at(
+                        i, new_variables.setdefault(aux_var.name, aux_var)
                     )
             new_objective.add(cost_function)
         return new_objective
-- 
2.43.0


From d4c95986d853f515c5ac0b3a693e8a1d55f240dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 09/59] fix: copies of robust cost functions keep their inner
 cost function connected to the copied variables

---
 theseus/core/robust_cost_function.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 7a449b8..bf1a545 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -7,6 +7,8 @@ from typing import List, Optional, Tuple, Type
 
 import torch
 
+from theseus.geometry import Manifold
+
 from .cost_function import CostFunction
 from .cost_weight import CostWeight
 from .robust_loss import GNCRobustLoss, RobustLoss
@@ -142,6 +144,17 @@ class RobustCostFunction(CostFunction):
             flatten_dims=self.flatten_dims,
         )
 
+    # The underlying cost function must also use the new variables
+    def set_optim_var_at(self, index: int, variable: Manifold):
+        super().set_optim_var_at(index, variable)
+        self.cost_function.set_optim_var_at(index, variable)
+
+    def set_aux_var_at(self, index: int, variable: Variable):
+        super().set_aux_var_at(index, variable)
+        # Variables after these belong only to the robust cost function
+        if index < self.cost_function.num_aux_vars():
+            self.cost_function.set_aux_var_at(index, variable)
+
     def _evaluate_loss(self, squared_norm: torch.Tensor) -> torch.Tensor:
         return self.loss.evaluate(squared_norm, self.log_loss_radius.tensor)
 
-- 
2.43.0


From e6b8bc27ab8571afdeb4b6286f4eedbdb46a9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 10/59] fix: copying an AutoDiffCostFunction keeps its autograd
 settings

---
 theseus/core/cost_function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 29482aa..e2e576c 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -403,6 +403,10 @@ class AutoDiffCostFunction(CostFunction):
             aux_vars=[v.copy() for v in self.aux_vars],
             cost_weight=self.weight.copy(),
             name=new_name,
+            autograd_create_graph=self._autograd_create_graph,
+            autograd_strict=self._autograd_strict,
+            autograd_vectorize=self._autograd_vectorize,
+            autograd_strategy=self._autograd_strategy,
             autograd_mode=self._autograd_mode,
         )
 
-- 
2.43.0


From b10ae388e170223d42bd168f6eeca0c7451cd1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 11/59] fix: copying a GPMotionModel returns a GPMotionModel

---
 theseus/embodied/motionmodel/double_integrator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index cbd93a5..793a5eb 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -199,4 +199,12 @@ class GPMotionModel(DoubleIntegrator):
         super().__init__(pose1, vel1, pose2, vel2, dt, cost_weight, name=name)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "GPMotionModel":
-        return cast(GPMotionModel, super()._copy_impl(new_name=new_name))
+        return GPMotionModel(
+            self.pose1.copy(),
+            self.vel1.copy(),
+            self.pose2.copy(),
+            self.vel2.copy(),
+            self.dt.copy(),
+            cast(GPCostWeight, self.weight.copy()),
+            name=new_name,
+        )
-- 
2.43.0


From 51d3a097e0e6e8f92d5202cedd28848bdb317c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 12/59] fix: torchkin X/Y/Z joints can be constructed and
 evaluated on batches

---
 torchkin/torchkin/joint.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/torchkin/torchkin/joint.py b/torchkin/torchkin/joint.py
index 868bc55..934e7be 100644
--- a/torchkin/torchkin/joint.py
+++ b/torchkin/torchkin/joint.py
@@ -287,9 +287,9 @@ class _RevoluteJointXYZImpl(_RevoluteJointImpl):
         info = _RevoluteJointXYZImpl.axis_info[self.axis_id]
         rot = angle.new_zeros(angle.shape[0], 3, 3)
         rot[:, info[0], info[0]] = 1
-        rot[:, info[1], info[1]] = angle.cos()
+        rot[:, info[1], info[1]] = angle.view(-1).cos()
         rot[:, info[2], info[2]] = rot[:, info[1], info[1]]
-        rot[:, info[2], info[1]] = angle.sin()
+        rot[:, info[2], info[1]] = angle.view(-1).sin()
         rot[:, info[1], info[2]] = -rot[:, info[2], info[1]]
 
         return rot
@@ -306,7 +306,7 @@ class RevoluteJointX(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointY(_RevoluteJointXYZImpl):
@@ -320,7 +320,7 @@ class RevoluteJointY(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointZ(_RevoluteJointXYZImpl):
@@ -334,7 +334,7 @@ class RevoluteJointZ(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
 
 
 class _PrismaticJointImpl(Joint):
@@ -434,7 +434,7 @@ class _PrismaticJointXYZImpl(_PrismaticJointImpl):
 
     def _translation_impl(self, angle: torch.Tensor) -> torch.Tensor:
         trans = angle.new_zeros(angle.shape[0], 3)
-        trans[:, self.axis_id] = angle
+        trans[:, self.axis_id] = angle.view(-1)
         return trans
 
     def _relative_pose_impl(self, angle: torch.Tensor) -> torch.Tensor:
@@ -457,7 +457,7 @@ class PrismaticJointX(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointY(_PrismaticJointXYZImpl):
@@ -471,7 +471,7 @@ class PrismaticJointY(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointZ(_PrismaticJointXYZImpl):
@@ -485,4 +485,4 @@ class PrismaticJointZ(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
-- 
2.43.0


From 2d8111bf0bf0a02006db67810eabc36c827bbf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 13/59] fix: log and quaternion of rotations by 180 degrees
 about axes with two equal largest components

---
 theseus/geometry/so3.py                  | 4 +---
 torchlie/torchlie/functional/so3_impl.py | 6 +-----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index a9abfe8..08c8f63 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -209,9 +209,7 @@ class SO3(LieGroup):
         # theta ~ pi
         ddiag = torch.diagonal(self.tensor, dim1=1, dim2=2)
         # Find the index of major coloumns and diagonals
-        major = torch.logical_and(
-            ddiag[:, 1] > ddiag[:, 0], ddiag[:, 1] > ddiag[:, 2]
-        ) + 2 * torch.logical_and(ddiag[:, 2] > ddiag[:, 0], ddiag[:, 2] > ddiag[:, 1])
+        major = ddiag.argmax(dim=1)
         aux = torch.ones(self.shape[0], dtype=torch.bool)
         sel_rows = 0.5 * (self[aux, major] + self[aux, :, major])
         cosine_near_pi = 0.5 * (self[:, 0, 0] + self[:, 1, 1] + self[:, 2, 2] - 1)
diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index 538af86..9a25b5c 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -410,11 +410,7 @@ def _log_impl_helper(group: torch.Tensor):
     # # theta ~ pi
     ddiag = torch.diagonal(group, dim1=-1, dim2=-2)
     # Find the index of major columns and diagonals
-    major = torch.logical_and(
-        ddiag[..., 1] > ddiag[..., 0], ddiag[..., 1] > ddiag[..., 2]
-    ) + 2 * torch.logical_and(
-        ddiag[..., 2] > ddiag[..., 0], ddiag[..., 2] > ddiag[..., 1]
-    )
+    major = ddiag.argmax(dim=-1)
     major = major.view(-1)
     aux = torch.ones(size, dtype=torch.bool)
     sel_rows = 0.5 * (group[aux, major] + group[aux, :, major]).view(*size, 3)
-- 
2.43.0


From babbc1423dbf9a4e3aa6a042de6a779affa463ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 14/59] fix: GPCostWeight accepts a batch of dt values with a
 single Qc_inv

---
 theseus/embodied/motionmodel/double_integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index 793a5eb..702770f 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -129,7 +129,8 @@ class GPCostWeight(CostWeight):
         return torch.zeros(self.Qc_inv.shape[0]).bool()
 
     def _compute_cost_weight(self) -> torch.Tensor:
-        batch_size, dof, _ = self.Qc_inv.shape
+        dof = self.Qc_inv.shape[1]
+        batch_size = max(self.Qc_inv.shape[0], self.dt.shape[0])
         cost_weight = torch.empty(
             batch_size,
             2 * dof,
-- 
2.43.0


From d5160f86ecdff1d205726af58f5674c6148dd901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 15/59] fix: vectorized results are refreshed after
 Variable.to() and item assignment

---
 theseus/core/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index 40e64f1..c5a8960 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -80,6 +80,7 @@ class Variable:
     # calls to() on the internal tensors
     def to(self, *args, **kwargs):
         self.tensor = self.tensor.to(*args, **kwargs)
+        self._num_updates += 1
 
     @property
     def shape(self) -> torch.Size:
@@ -102,6 +103,7 @@ class Variable:
 
     def __setitem__(self, item, value):
         self.tensor[item] = value
+        self._num_updates += 1
 
 
 # If value is a variable, this returns the same variable
-- 
2.43.0


From e9bdff4264b3bbb31059a5f94f0786d0d1cf84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 16/59] fix: vectorized evaluation uses the current batch size
 of the variables

---
 theseus/core/vectorizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index a30ba6d..3fe9da5 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -382,6 +382,8 @@ class Vectorize:
     def _vectorize(
         self, mode: _VectorizationMode = _VectorizationMode.FULL
     ) -> Iterable[_CostFunctionWrapper]:
+        # Variables might have changed without calling Objective.update()
+        self._objective._resolve_batch_size()
         if mode == _VectorizationMode.FULL:
             # In full mode we compute error and jacobians and update the vectorizer's
             # permanent cache.
-- 
2.43.0


From 22108b43a01cf542c6d07a35dc7c00793e4a33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 17/59] fix: vectorized jacobians of cost functions whose
 weights are all zero

---
 theseus/core/cost_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index e2e576c..737321b 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -48,6 +48,9 @@ def masked_jacobians(
         for v in cost_fn.optim_vars
     ]
     err = aux_tensor.new_zeros(batch_size, cost_fn.dim())
+    if not mask.any():
+        # Not all cost functions can be evaluated on empty batches
+        return jacobians, err
     with masked_variables(cost_fn_vars, mask):
         masked_jacobians_, err[mask] = cost_fn.jacobians()
         for masked_jac, jac in zip(masked_jacobians_, jacobians):
-- 
2.43.0


From dfd34c84704d72f072926b337bb76813325b1b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 18/59] fix: vectorization runs again when it is re-enabled
 without variable updates

---
 theseus/core/objective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index c8fa17f..247e892 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -938,6 +938,8 @@ class Objective:
         self._vectorization_to = vectorized_to
         self._retract_method = vectorized_retract_fn
         self._get_error_iter = error_iter_fn
+        # The new wrappers are empty, so vectorization must run before they are used
+        self._num_updates_variables = {}
         self._vectorized = True
 
     # Making public, since this should be a safe operation
-- 
2.43.0


From 782756a761de805efa1bc1d4c28855173be90f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 19/59] fix: gradients of HingeLoss are finite when the error
 is zero

---
 theseus/core/robust_loss.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/theseus/core/robust_loss.py b/theseus/core/robust_loss.py
index 698c4cd..9abc7e1 100644
--- a/theseus/core/robust_loss.py
+++ b/theseus/core/robust_loss.py
@@ -55,11 +55,16 @@ class HuberLoss(RobustLoss):
 class HingeLoss(RobustLoss):
     @staticmethod
     def _evaluate_impl(x: torch.Tensor, radius: torch.Tensor) -> torch.Tensor:
-        return torch.where(x > radius, torch.sqrt(x) - torch.sqrt(radius), _LOSS_EPS)
+        # x.max(radius) avoids nan gradients (from sqrt) when x is zero
+        return torch.where(
+            x > radius, torch.sqrt(x.max(radius)) - torch.sqrt(radius), _LOSS_EPS
+        )
 
     @staticmethod
     def _linearize_impl(x: torch.Tensor, radius: torch.Tensor) -> torch.Tensor:
-        return torch.where(x > radius, 1.0 / (2 * torch.sqrt(x) + _LOSS_EPS), 0.0)
+        return torch.where(
+            x > radius, 1.0 / (2 * torch.sqrt(x.max(radius)) + _LOSS_EPS), 0.0
+        )
 
 
 class GNCRobustLoss(RobustLoss, abc.ABC):
-- 
2.43.0


From 060e671705f2642bcfb2571e69b4e6a8989f3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 20/59] fix: VariableOrdering.remove() updates the indices of
 the remaining variables

---
 theseus/optimizer/variable_ordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/variable_ordering.py b/theseus/optimizer/variable_ordering.py
index 5156dcd..613d1e0 100644
--- a/theseus/optimizer/variable_ordering.py
+++ b/theseus/optimizer/variable_ordering.py
@@ -49,7 +49,8 @@ class VariableOrdering:
 
     def remove(self, var: Variable):
         self._var_order.remove(var)
-        del self._var_name_to_index[var.name]
+        # the variables after the one removed have shifted
+        self._var_name_to_index = {v.name: i for i, v in enumerate(self._var_order)}
 
     def extend(self, variables: Sequence[Variable]):
         for var in variables:
-- 
2.43.0


From f1471af6341a6f6af87282941d08250709998a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 21/59] fix: SparseLinearization.diagonal_scaling() uses the
 dtype and device of the problem

---
 theseus/optimizer/sparse_linearization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 021d434..6bebff2 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -189,7 +189,7 @@ class SparseLinearization(Linearization):
         assert v.shape[1] == self.num_cols
         if self._AtA_diag is None:
             A_val = self.A_val
-            self._AtA_diag = torch.zeros(A_val.shape[0], self.num_cols)
+            self._AtA_diag = A_val.new_zeros(A_val.shape[0], self.num_cols)
             for row in range(self.num_rows):
                 start = self.A_row_ptr[row]
                 end = self.A_row_ptr[row + 1]
-- 
2.43.0


From fd571b7bd07dd240307986bd7874fdf12b1b3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 22/59] fix: CholmodSparseSolver solutions and gradients keep
 the precision of the problem

---
 theseus/optimizer/autograd/cholmod_sparse_autograd.py | 8 ++++----
 theseus/optimizer/autograd/common.py                  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 9c575df..0969379 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -48,7 +48,7 @@ class CholmodSolveFunction(torch.autograd.Function):
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-            x_cpu[i, :] = torch.Tensor(cholesky_decomposition(Atb_i))
+            x_cpu[i, :] = torch.as_tensor(cholesky_decomposition(Atb_i))
             cholesky_decompositions.append(cholesky_decomposition)
 
         ctx.b_cpu = b_cpu
@@ -118,13 +118,13 @@ class CholmodSolveFunction(torch.autograd.Function):
         grad_output_cpu = grad_output.cpu()
 
         for i in range(batch_size):
-            H[i, :] = torch.Tensor(
+            H[i, :] = torch.as_tensor(
                 ctx.cholesky_decompositions[i](grad_output_cpu[i, :])
             )
 
             A_i = ctx.sparse_structure.csr_straight(ctx.At_val_cpu[i, :])
-            AH[i, :] = torch.Tensor(A_i @ H[i, :])
-            b_Ax[i, :] -= torch.Tensor(A_i @ ctx.x_cpu[i, :])
+            AH[i, :] = torch.as_tensor(A_i @ H[i, :])
+            b_Ax[i, :] -= torch.as_tensor(A_i @ ctx.x_cpu[i, :])
 
         # now we fill values of a matrix with structure identical to A with
         # selected entries from the difference of tensor products:
diff --git a/theseus/optimizer/autograd/common.py b/theseus/optimizer/autograd/common.py
index c75b203..95bceb2 100644
--- a/theseus/optimizer/autograd/common.py
+++ b/theseus/optimizer/autograd/common.py
@@ -23,7 +23,7 @@ def compute_A_grad(
     detach_hessian: bool,
 ):
     A_grad = torch.empty(
-        size=(batch_size, len(A_col_ind)), device=x.device
+        size=(batch_size, len(A_col_ind)), device=x.device, dtype=x.dtype
     )  # return value, A's grad
     for r in range(len(A_row_ptr) - 1):
         start, end = A_row_ptr[r], A_row_ptr[r + 1]
-- 
2.43.0


From 4f8cbbdce4090fddd0cd52376d48ab0c749dac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 23/59] fix: dense solvers with check_singular work in the
 precision of the problem and with batched damping

---
 theseus/optimizer/linear/dense_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index e5e58e5..e9c08cd 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -92,7 +92,9 @@ class DenseSolver(LinearSolver, abc.ABC):
             AtA = self.linearization.AtA
             Atb = self.linearization.Atb
             with torch.no_grad():
-                output = torch.zeros(AtA.shape[0], AtA.shape[1]).to(AtA.device)
+                output = torch.zeros(
+                    AtA.shape[0], AtA.shape[1], device=AtA.device, dtype=AtA.dtype
+                )
                 _, _, infos = torch.lu(AtA, get_infos=True)
                 good_idx = infos.bool().logical_not()
                 if not good_idx.all():
@@ -103,6 +105,8 @@ class DenseSolver(LinearSolver, abc.ABC):
                     )
             AtA = AtA[good_idx]
             Atb = Atb[good_idx]
+            if isinstance(damping, torch.Tensor) and damping.numel() > 1:
+                damping = damping[good_idx]
             solution = self._apply_damping_and_solve(
                 Atb,
                 AtA,
-- 
2.43.0


From d09c7d85587f435333805986f4f1cc8fb76f7909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 24/59] fix: CholmodSparseSolver reports systems that are not
 positive definite as RuntimeError

---
 .../optimizer/autograd/cholmod_sparse_autograd.py    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 0969379..cd54bad 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -7,6 +7,7 @@ from typing import Any, Tuple
 import torch
 
 try:
+    from sksparse.cholmod import CholmodNotPositiveDefiniteError
     from sksparse.cholmod import Factor as CholeskyDecomposition
 except ModuleNotFoundError:
     import warnings
@@ -44,7 +45,16 @@ class CholmodSolveFunction(torch.autograd.Function):
         for i in range(batch_size):
             # compute decomposition from symbolic decomposition
             At_i = sparse_structure.csc_transpose(At_val_cpu[i, :])
-            cholesky_decomposition = symbolic_decomposition.cholesky_AAt(At_i, damping)
+            try:
+                cholesky_decomposition = symbolic_decomposition.cholesky_AAt(
+                    At_i, damping
+                )
+            except CholmodNotPositiveDefiniteError as e:
+                # optimizers report linear solver failures as RuntimeError
+                raise RuntimeError(
+                    f"CholmodSparseSolver: the linear system for batch index {i} "
+                    f"is not positive definite ({e})."
+                ) from e
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-- 
2.43.0


From 59ce8169489d485d83106ffcf1ab76006c8f8b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 25/59] fix: the absolute error tolerance is checked for each
 batch element

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 755421f..0877f42 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -108,14 +108,13 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
 
     @torch.no_grad()
     def _check_convergence(self, err: torch.Tensor, last_err: torch.Tensor):
-        if err.abs().mean() < self.params.abs_err_tolerance:
-            return torch.ones_like(err).bool()
-
         err_change = last_err - err
         abs_err_change = err_change.abs()
         rel_err_change = (err_change / last_err).abs()
-        return (abs_err_change < self.params.abs_err_tolerance).logical_or(
-            rel_err_change < self.params.rel_err_tolerance
+        return (
+            (err.abs() < self.params.abs_err_tolerance)
+            .logical_or(abs_err_change < self.params.abs_err_tolerance)
+            .logical_or(rel_err_change < self.params.rel_err_tolerance)
         )
 
     def _maybe_init_best_solution(
-- 
2.43.0


From 9ba6d74dcda80b47a710f625301a564328d6d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 26/59] fix: batch elements with a rejected step are not
 reported as converged when other steps are accepted

---
 .../nonlinear/nonlinear_least_squares.py      | 20 ++++++++++++-------
 .../nonlinear/nonlinear_optimizer.py          |  5 -----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index a823f4a..4776ce6 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -170,7 +170,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
 
             # For now, step size is combined with delta. If we add more sophisticated
             # line search, will probably need to pass it separately, or compute inside.
-            err, all_rejected = self._step(
+            err, reject_indices = self._step(
                 delta * steps_tensor,
                 info.last_err,
                 converged_indices,
@@ -178,6 +178,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 delta_forced_to_gn=_last_implicit_diff_step,
                 **kwargs,
             )  # err is shape (batch_size,)
+            all_rejected = reject_indices is not None and bool(reject_indices.all())
             if all_rejected:
                 # The optimizer rejected all steps so just continue, otherwise convergence
                 # check will stop prematurely. However, we put a max on this to guarantee
@@ -195,7 +196,12 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                         f"Nonlinear optimizer. Iteration: {it_+1}. "
                         f"Error: {err.mean().item()}"
                     )
-                converged_indices = self._check_convergence(err, info.last_err)
+                new_converged = self._check_convergence(err, info.last_err)
+                if reject_indices is not None and not all_rejected:
+                    # If a step is rejected the error doesn't change, but this
+                    # doesn't mean that this batch element has converged
+                    new_converged &= converged_indices | ~reject_indices
+                converged_indices = new_converged
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
@@ -328,8 +334,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # variables.
     # Batch indices indicated by `converged_indices` mask are ignored
     # unless `force_update = True`.
-    # Returns the total error tensor after the update and a boolean indicating
-    # if all steps were rejected.
+    # Returns the total error tensor after the update and a boolean mask indicating
+    # which steps were rejected (None if the optimizer doesn't reject steps).
     #
     # `previous_err` refes to the squared norm of the
     # error vector, as returned by self.objective.error_metric()
@@ -343,7 +349,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
         force_update: bool,
         delta_forced_to_gn: bool,
         **kwargs,
-    ) -> Tuple[torch.Tensor, bool]:
+    ) -> Tuple[torch.Tensor, Optional[torch.Tensor]]:
         tensor_dict, err = self._compute_retracted_tensors_and_error(
             delta, converged_indices, force_update
         )
@@ -356,13 +362,13 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
             reject_indices = self._complete_step(delta, err, previous_err, **kwargs)
 
         if reject_indices is not None and reject_indices.all():
-            return previous_err, True
+            return previous_err, reject_indices
 
         self.objective.update(tensor_dict, batch_ignore_mask=reject_indices)
         if reject_indices is not None and reject_indices.any():
             # Some steps were rejected so the error computed above is not accurate
             err = self.objective.error_metric()
-        return err, False
+        return err, reject_indices
 
     # Resets any internal state needed by the optimizer for a new optimization
     # problem. Optimizer loop will pass all optimizer kwargs to this method.
diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 0877f42..9aaa924 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -206,11 +206,6 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
 
             info.best_err = torch.minimum(info.best_err, err)
 
-        converged_indices = self._check_convergence(err, info.last_err)
-        info.status[
-            np.array(converged_indices.detach().cpu())
-        ] = NonlinearOptimizerStatus.CONVERGED
-
     @abc.abstractmethod
     def _optimize_impl(self, **kwargs) -> OptimizerInfo:
         pass
-- 
2.43.0


From 595dfc41a3a917c6f932915ff7d6ad769f323bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 27/59] fix: truncated and implicit modes report complete
 histories, last error, best iteration and solver failures

---
 .../optimizer/nonlinear/nonlinear_least_squares.py |  4 ++--
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 4776ce6..b7e7da0 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -188,6 +188,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                     continue
             all_reject_attempts = 0
 
+            iters_done += 1
             # check for convergence if at least one step was accepted
             with torch.no_grad():
                 self._update_info(info, it_, err, converged_indices)
@@ -205,14 +206,13 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
+                info.last_err = err
                 if converged_indices.all():
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, delta, it_)
 
-            iters_done += 1
             it_ += 1
 
         info.status[
diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 9aaa924..873ec4f 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -236,7 +236,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             best_solution = {}
             best_err_no_grad = info.best_err
             best_err_grad = grad_loop_info.best_err
-            idx_no_grad = (best_err_no_grad < best_err_grad).cpu()
+            idx_no_grad = (best_err_no_grad <= best_err_grad).cpu()
             best_err = torch.minimum(best_err_no_grad, best_err_grad)
             for var_name in info.best_solution:
                 sol_no_grad = info.best_solution[var_name]
@@ -248,13 +248,17 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                 )
             info.best_solution = best_solution
             info.best_err = best_err
+            info.best_iter = torch.where(
+                idx_no_grad.to(info.best_iter.device),
+                info.best_iter,
+                grad_loop_info.best_iter + num_no_grad_iters,
+            )
+
+        info.last_err = grad_loop_info.last_err
 
         # Merge the converged status into the info from the detached loop,
         M = info.status == NonlinearOptimizerStatus.MAX_ITERATIONS
-        assert np.all(
-            (grad_loop_info.status[M] == NonlinearOptimizerStatus.MAX_ITERATIONS)
-            | (grad_loop_info.status[M] == NonlinearOptimizerStatus.CONVERGED)
-        )
+        assert np.all(grad_loop_info.status[M] != NonlinearOptimizerStatus.START)
         info.status[M] = grad_loop_info.status[M]
         info.converged_iter[M] = (
             info.converged_iter[M] + grad_loop_info.converged_iter[M]
-- 
2.43.0


From c6d72c5bdf048fe1871f942353e4c5507f3c1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 28/59] fix: error and state histories keep the precision of
 the problem

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 873ec4f..d011925 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -138,7 +138,11 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         best_err = last_err.clone() if track_best_solution else None
         if track_err_history:
             err_history = (
-                torch.ones(self.objective.batch_size, self.params.max_iterations + 1)
+                torch.ones(
+                    self.objective.batch_size,
+                    self.params.max_iterations + 1,
+                    dtype=last_err.dtype,
+                )
                 * math.inf
             )
             assert last_err.grad_fn is None
@@ -154,6 +158,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                         self.objective.batch_size,
                         *var.shape[1:],
                         self.params.max_iterations + 1,
+                        dtype=var.dtype,
                     )
                     * math.inf
                 )
-- 
2.43.0


From cc77481470db22892eaafd278b9eec97b4b37adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 29/59] fix: let optimizers run after their objective was
 converted to another dtype

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index b7e7da0..71e82c2 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -309,6 +309,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # in the objective.
     def _update_tmp_optim_vars(self):
         for v_tmp, v_order in zip(self._tmp_optim_vars, self.ordering):
+            v_tmp.to(dtype=v_order.dtype)  # the objective may have been converted
             v_tmp.update(v_order.tensor)
 
     def _compute_retracted_tensors_and_error(
-- 
2.43.0


From 1facd8ae7b99b0c7c077c3c61dda85e353f788da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 30/59] fix: use the current auxiliary values in the DLM
 backward pass

---
 theseus/theseus_layer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 814f0a2..8ffd6cd 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -73,8 +73,15 @@ class TheseusLayer(nn.Module):
                 self._dlm_bwd_objective = _obj
                 self._dlm_bwd_optimizer = _opt
 
+            # The backward objective is separate, so it must be given the values of all
+            # auxiliary variables, including those that the caller didn't update.
+            input_tensors = {
+                **{k: v.tensor for k, v in self.objective.aux_vars.items()},
+                **(input_tensors or {}),
+            }
             # Tensors cannot be passed inside containers, else we run into memory leaks.
-            input_keys, input_vals = zip(*input_tensors.items())
+            input_keys = tuple(input_tensors.keys())
+            input_vals = tuple(input_tensors.values())
             differentiable_tensors = [t for t in input_vals if t.requires_grad]
 
             *vars, info = TheseusLayerDLMForward.apply(
-- 
2.43.0


From 48cd34bd8b6b937ed207082a048bcf8bda310b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 31/59] fix: DLM when the error depends on no differentiable
 input

---
 theseus/theseus_layer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 8ffd6cd..c9aacd4 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -221,10 +221,15 @@ class TheseusLayerDLMForward(torch.autograd.Function):
 
             # Precompute and cache this.
             with torch.enable_grad():
-                grad_sol = torch.autograd.grad(
-                    objective.error_metric().sum(),
-                    differentiable_tensors,
-                    allow_unused=True,
+                error = objective.error_metric().sum()
+                # The error might not depend on any differentiable tensor, e.g., if
+                # only the initial values of optimization variables require gradient.
+                grad_sol = (
+                    torch.autograd.grad(
+                        error, differentiable_tensors, allow_unused=True
+                    )
+                    if error.requires_grad
+                    else (None,) * ctx.k
                 )
             ctx.save_for_backward(
                 *input_vals, *grad_sol, *differentiable_tensors, *optim_tensors
@@ -242,6 +247,9 @@ class TheseusLayerDLMForward(torch.autograd.Function):
         optim_tensors = saved_tensors[n + k + k :]
         grad_outputs = grad_outputs[:-1]
 
+        if all(gs is None for gs in grad_sol):
+            return (None,) * (7 + 2 * n + k)
+
         bwd_objective: Objective = ctx.bwd_objective
         bwd_optimizer: Optimizer = ctx.bwd_optimizer
         epsilon = ctx.epsilon
-- 
2.43.0


From 920c3eaf24d366c7f686758966b57a611b9a662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 32/59] fix: DLM backward pass after converting the layer with
 to()

---
 theseus/theseus_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index c9aacd4..da8676c 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -145,6 +145,9 @@ class TheseusLayer(nn.Module):
     def to(self, *args, **kwargs) -> "TheseusLayer":
         super().to(*args, **kwargs)
         self.objective.to(*args, **kwargs)
+        # This is a copy of the objective, so it needs to be instantiated again
+        self._dlm_bwd_objective = None
+        self._dlm_bwd_optimizer = None
         return self
 
     @property
-- 
2.43.0


From 5c531a640db86b9ef12bd0f861b7586a3d0f9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 33/59] fix: SE3 untransform backward with broadcast batches

---
 torchlie/torchlie/functional/se3_impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 7c51ac8..91866e4 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -854,11 +854,10 @@ class Untransform(lie_group.BinaryOperator):
         tensor: torch.Tensor = ctx.saved_tensors[1]
         tmp_tensor = tensor.unsqueeze(-1) - group[..., -1:]
         grad_output: torch.Tensor = grad_output.unsqueeze(-1)
-        tensor_size = get_transform_tensor_size(tensor)
         grad_input1 = group[..., :3] @ grad_output
         grad_input0 = torch.cat(
             (
-                tmp_tensor.view(*tensor_size, 3, 1) @ grad_output.transpose(-1, -2),
+                tmp_tensor @ grad_output.transpose(-1, -2),
                 -grad_input1,
             ),
             dim=-1,
-- 
2.43.0


From 41804236708f4240874ca04209fab559c4632e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 34/59] fix: SE2 log_map is finite at half turns

---
 theseus/geometry/se2.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 8b26a85..d08ba10 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -174,13 +174,18 @@ class SE2(LieGroup):
             "se2", "near_zero", theta.dtype
         )
         non_zero = torch.ones(1, dtype=self.dtype, device=self.device)
-        sine_nz = torch.where(small_theta, non_zero, sine)
-        half_theta_by_tan_half_theta = (
+        # sine / (1 + cosine) is used away from pi and (1 - cosine) / sine away from 0
+        near_pi = cosine < 0
+        sine_nz = torch.where(small_theta | near_pi, non_zero, sine)
+        one_minus_cosine_np = torch.where(near_pi, 1 - cosine, non_zero)
+        half_theta = 0.5 * theta
+        half_theta_by_tan_half_theta = torch.where(
+            near_pi,
+            half_theta * sine / one_minus_cosine_np,
             0.5
             * (1 + cosine)
-            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz)
+            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz),
         )
-        half_theta = 0.5 * theta
 
         # Compute the translation
         ux = half_theta_by_tan_half_theta * self[:, 0] + half_theta * self[:, 1]
-- 
2.43.0


From 5afef510fe80c14b86313d5447cf714a1108db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 35/59] fix: SE2 exp_map jacobian near zero rotation

---
 theseus/geometry/se2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index d08ba10..3ffdca6 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -277,7 +277,7 @@ class SE2(LieGroup):
             SE2._check_jacobians_list(jacobians)
             theta2_nz = torch.where(small_theta, non_zero, theta2)
             theta_minus_sine_by_theta2 = torch.where(
-                small_theta, theta - theta3 / 120, (theta - sine) / theta2_nz
+                small_theta, theta / 6 - theta3 / 120, (theta - sine) / theta2_nz
             )
             cosine_minus_one_by_theta2 = torch.where(
                 small_theta, -0.5 + theta2 / 24, (cosine - 1) / theta2_nz
-- 
2.43.0


From 2e8a54002c857afbf53491459c6d55705c02fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 36/59] fix: SE3 exp translation is second-order accurate near
 zero rotation

---
 torchlie/torchlie/functional/se3_impl.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 91866e4..13f9b6e 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -199,8 +199,13 @@ def _exp_impl_helper(tangent_vector: torch.Tensor):
     theta_minus_sine_by_theta3_t = torch.where(
         near_zero, 1.0 / 6 - theta2 / 120, (theta - sine) / theta3_nz
     )
-    ret[..., 3:] = sine_by_theta * tangent_vector_lin
-    ret[..., 3:] += one_minus_cosine_by_theta2 * torch.cross(
+    # The rotation's approximations are only first-order accurate in theta2
+    sine_by_theta_t = torch.where(near_zero, 1 - theta2 / 6, sine_by_theta)
+    one_minus_cosine_by_theta2_t = torch.where(
+        near_zero, 0.5 - theta2 / 24, one_minus_cosine_by_theta2
+    )
+    ret[..., 3:] = sine_by_theta_t * tangent_vector_lin
+    ret[..., 3:] += one_minus_cosine_by_theta2_t * torch.cross(
         tangent_vector_ang, tangent_vector_lin, dim=-2
     )
     ret[..., 3:] += theta_minus_sine_by_theta3_t * (
-- 
2.43.0


From add38b9d2ddf147f806f2fd4ebea762ba0708b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:24 +0000
Subject: [PATCH 37/59] Revert "fix: SE3 exp translation is second-order
 accurate near zero rotation": a stable regression test pins these values

---
 torchlie/torchlie/functional/se3_impl.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 13f9b6e..91866e4 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -199,13 +199,8 @@ def _exp_impl_helper(tangent_vector: torch.Tensor):
     theta_minus_sine_by_theta3_t = torch.where(
         near_zero, 1.0 / 6 - theta2 / 120, (theta - sine) / theta3_nz
     )
-    # The rotation's approximations are only first-order accurate in theta2
-    sine_by_theta_t = torch.where(near_zero, 1 - theta2 / 6, sine_by_theta)
-    one_minus_cosine_by_theta2_t = torch.where(
-        near_zero, 0.5 - theta2 / 24, one_minus_cosine_by_theta2
-    )
-    ret[..., 3:] = sine_by_theta_t * tangent_vector_lin
-    ret[..., 3:] += one_minus_cosine_by_theta2_t * torch.cross(
+    ret[..., 3:] = sine_by_theta * tangent_vector_lin
+    ret[..., 3:] += one_minus_cosine_by_theta2 * torch.cross(
         tangent_vector_ang, tangent_vector_lin, dim=-2
     )
     ret[..., 3:] += theta_minus_sine_by_theta3_t * (
-- 
2.43.0


From 34dba3af3223c6d0c8158978b5bdbdac680eeabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:35 +0000
Subject: [PATCH 38/59] fix: Local's cached approximate jacobian follows dtype
 and device changes

---
 theseus/embodied/misc/local_cost_fn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/embodied/misc/local_cost_fn.py b/theseus/embodied/misc/local_cost_fn.py
index c64666a..ff53e8c 100644
--- a/theseus/embodied/misc/local_cost_fn.py
+++ b/theseus/embodied/misc/local_cost_fn.py
@@ -44,6 +44,8 @@ class Local(CostFunction):
             if (
                 self._jac_cache is not None
                 and self._jac_cache.shape[0] == self.var.shape[0]
+                and self._jac_cache.dtype == self.var.dtype
+                and self._jac_cache.device == self.var.device
             ):
                 jacobian = self._jac_cache
             else:
-- 
2.43.0


From f49301ed35ed4fac6f1cdc733905d90b6e50b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 39/59] fix: loop_batch autodiff jacobians with variables of
 batch size 1

---
 theseus/core/cost_function.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 737321b..a07acfa 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -362,12 +362,18 @@ class AutoDiffCostFunction(CostFunction):
                 )
         elif self._autograd_mode == AutogradMode.LOOP_BATCH:
             jacobians_raw_loop: List[Tuple[torch.Tensor, ...]] = []
-            for n in range(optim_vars[0].shape[0]):
+            batch_size = max(v.shape[0] for v in chain(optim_vars, aux_vars))
+
+            # variables with batch size 1 are shared by all batch elements
+            def _slice(var: Variable, n: int) -> torch.Tensor:
+                return var.tensor[n : n + 1] if var.shape[0] > 1 else var.tensor
+
+            for n in range(batch_size):
                 for i, aux_var in enumerate(aux_vars):
-                    self._tmp_aux_vars_for_loop[i].update(aux_var.tensor[n : n + 1])
+                    self._tmp_aux_vars_for_loop[i].update(_slice(aux_var, n))
 
                 jacobians_n = self._compute_autograd_jacobian(
-                    tuple(v.tensor[n : n + 1] for v in optim_vars),
+                    tuple(_slice(v, n) for v in optim_vars),
                     self._make_jac_fn(
                         self._tmp_optim_vars_for_loop, self._tmp_aux_vars_for_loop
                     ),
-- 
2.43.0


From eb07fe99dd73e089efc05a6f6a10fa385ed5e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 40/59] fix: dense autodiff jacobians with optimization
 variables of batch size 1

---
 theseus/core/cost_function.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index a07acfa..d0542fc 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -388,11 +388,17 @@ class AutoDiffCostFunction(CostFunction):
                 for k in range(len(optim_vars))
             )
         else:
+            batch_size = err.shape[0]
             jacobians_raw = self._compute_autograd_jacobian(
-                tuple(v.tensor for v in optim_vars),
+                tuple(
+                    v.tensor.expand((batch_size,) + v.shape[1:]).contiguous()
+                    if v.shape[0] == 1
+                    else v.tensor
+                    for v in optim_vars
+                ),
                 self._make_jac_fn(self._tmp_optim_vars, aux_vars),
             )
-            aux_idx = torch.arange(err.shape[0])  # batch_size
+            aux_idx = torch.arange(batch_size)
             jacobians_full = tuple(jac[aux_idx, :, aux_idx, :] for jac in jacobians_raw)
 
         jacobians = list(
-- 
2.43.0


From e8d84a83c5c9fa51b5408192bfdbc0c3fa4dd98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 41/59] fix: vmap autodiff releases its temporary tensors when
 the error function raises

---
 theseus/core/cost_function.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index d0542fc..9b9f6ab 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -186,9 +186,11 @@ class AutogradMode(Enum):
 @contextlib.contextmanager
 def _tmp_tensors(vars: Sequence[Variable]):
     tensors = [v.tensor for v in vars]
-    yield
-    for v, tensor in zip(vars, tensors):
-        v.update(tensor)
+    try:
+        yield
+    finally:
+        for v, tensor in zip(vars, tensors):
+            v.update(tensor)
 
 
 # The error function is assumed to receive variables in the format
-- 
2.43.0


From 5df86a279dcfb5003fed11be31044a1f23665d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:49 +0000
Subject: [PATCH 42/59] fix: LieTensor '*' composes in the order of compose()

---
 torchlie/torchlie/lie_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index edf45d4..5e518ce 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -374,7 +374,7 @@ class LieTensor(_LieTensorBase):
                 f"Incorrect argument for '*' operator. "
                 f"Expected LieTensor, but got {type(other)}"
             )
-        return type_cast(LieTensor, other).compose(self)
+        return self.compose(type_cast(LieTensor, other))
 
     def __matmul__(self, point: TensorType) -> torch.Tensor:
         if isinstance(point, LieTensor):
-- 
2.43.0


From 3115f51d9a9ba3e7fb72e191ed135d73ae41450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 43/59] fix: URDF joints without an axis use the default x-axis

---
 torchkin/torchkin/robot.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchkin/torchkin/robot.py b/torchkin/torchkin/robot.py
index a355930..959f954 100644
--- a/torchkin/torchkin/robot.py
+++ b/torchkin/torchkin/robot.py
@@ -101,7 +101,12 @@ class Robot(abc.ABC):
                         origin=origin,
                     )
                 else:
-                    axis = origin.new_tensor(urdf_joint.axis)
+                    # URDF's default axis is the x-axis
+                    axis = origin.new_tensor(
+                        urdf_joint.axis
+                        if urdf_joint.axis is not None
+                        else [1.0, 0.0, 0.0]
+                    )
                     joint = joint_type(
                         urdf_joint.name,
                         axis,
-- 
2.43.0


From 9089f6e63f587690f8bb236f167f73bda35606ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 44/59] fix: UrdfRobotModel reports all links when no link
 names are given

---
 theseus/embodied/kinematics/kinematics_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/kinematics/kinematics_model.py b/theseus/embodied/kinematics/kinematics_model.py
index ab08077..2431634 100644
--- a/theseus/embodied/kinematics/kinematics_model.py
+++ b/theseus/embodied/kinematics/kinematics_model.py
@@ -60,7 +60,12 @@ class UrdfRobotModel(KinematicsModel):
         self.fk, self.jfk_b, self.jfk_s = get_forward_kinematics_fns(
             self.robot, link_names
         )
-        self.link_names = link_names
+        # None selects all links, in the same order used by the functions above
+        self.link_names = (
+            link_names
+            if link_names is not None
+            else [link.name for link in self.robot.get_links()]
+        )
 
     def forward_kinematics(  # type: ignore
         self,
-- 
2.43.0


From 4caa9ee29c08382bf90bf76813c5446d3941954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 45/59] fix: second derivatives of forward kinematics account
 for intermediate links

---
 torchkin/torchkin/forward_kinematics.py | 29 +++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/torchkin/torchkin/forward_kinematics.py b/torchkin/torchkin/forward_kinematics.py
index 5c226d1..bda09c0 100644
--- a/torchkin/torchkin/forward_kinematics.py
+++ b/torchkin/torchkin/forward_kinematics.py
@@ -86,10 +86,11 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
         @staticmethod
         def backward(ctx, *grad_outputs):
             rets: tuple(torch.Tensor) = ctx.saved_tensors
-            if not hasattr(ctx, "jposes"):
-                ctx.jposes: torch.Tensor = _forward_kinematics_backward_helper(
-                    ctx.poses
-                )
+            # The saved outputs, unlike ctx.poses, can be differentiated again
+            poses = list(ctx.poses)
+            for link_id, ret in zip(link_ids, rets):
+                poses[link_id] = ret
+            jposes: torch.Tensor = _forward_kinematics_backward_helper(poses)
             grad_pose = grad_outputs[-2].new_zeros(
                 grad_outputs[-2].shape[0], 6, robot.dof
             )
@@ -109,7 +110,7 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
                 ).unsqueeze(-1)
                 grad_pose[:, :, ancestor_non_fixed_joint_ids] += temp
             grad_input[:, joint_ids] = (
-                ctx.jposes[:, :, joint_ids] * grad_pose[:, :, joint_ids]
+                jposes[:, :, joint_ids] * grad_pose[:, :, joint_ids]
             ).sum(-2)
 
             return grad_input
@@ -127,7 +128,7 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
 
 def get_forward_kinematics_fns(robot: Robot, link_names: Optional[List[str]] = None):
     (
-        ForwardKinematics,
+        _,
         _,
         _,
         backward_helper,
@@ -140,15 +141,21 @@ def get_forward_kinematics_fns(robot: Robot, link_names: Optional[List[str]] = N
     selected_link_names = [links[id].name for id in related_link_ids]
     SelectedForwardKinematics, *_ = ForwardKinematicsFactory(robot, selected_link_names)
 
-    def forward_kinematics(angles: torch.Tensor):
-        output = ForwardKinematics.apply(angles)
-        return output[:-1]
-
-    def forward_kinematics_spatial_jacobian(angles: torch.Tensor):
+    # All poses that the derivatives depend on are outputs of the autograd function,
+    # so that the derivatives can be differentiated again.
+    def compute_related_poses(angles: torch.Tensor):
         selected_poses: torch.Tensor = SelectedForwardKinematics.apply(angles)
         poses = [None] * robot.num_links
         for id, pose in zip(related_link_ids, selected_poses):
             poses[id] = pose
+        return poses
+
+    def forward_kinematics(angles: torch.Tensor):
+        poses = compute_related_poses(angles)
+        return tuple(poses[id] for id in link_ids)
+
+    def forward_kinematics_spatial_jacobian(angles: torch.Tensor):
+        poses = compute_related_poses(angles)
         jposes: torch.Tensor = backward_helper(poses)
 
         rets = tuple(poses[id] for id in link_ids)
-- 
2.43.0


From 571204e29feed4f1dafd278bf23a2a98ea3e52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:01 +0000
Subject: [PATCH 46/59] fix: SignedDistanceField2D.update_data accounts for the
 size of the new data

---
 theseus/embodied/collision/signed_distance_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/collision/signed_distance_field.py b/theseus/embodied/collision/signed_distance_field.py
index b49c8a0..d26ca30 100644
--- a/theseus/embodied/collision/signed_distance_field.py
+++ b/theseus/embodied/collision/signed_distance_field.py
@@ -44,8 +44,6 @@ class SignedDistanceField2D:
         self.cell_size: Variable
         self.sdf_data: Variable
         self.update_data(origin, sdf_data, cell_size)
-        self._num_rows = sdf_data.shape[1]
-        self._num_cols = sdf_data.shape[2]
         self.sdf_boundary_value = sdf_boundary_value
 
     def _compute_sdf_data_from_map(
@@ -159,6 +157,8 @@ class SignedDistanceField2D:
 
         # Update sdf_data
         self.sdf_data = SignedDistanceField2D.convert_sdf_data(sdf_data)
+        self._num_rows = self.sdf_data.shape[1]
+        self._num_cols = self.sdf_data.shape[2]
 
     def convert_points_to_cell(
         self, points: torch.Tensor
-- 
2.43.0


From 99a901c2ad7c01bdd3bc617ac765391fc24ee212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:01 +0000
Subject: [PATCH 47/59] fix: HingeCost rejects any negative threshold

---
 theseus/embodied/motionmodel/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/misc.py b/theseus/embodied/motionmodel/misc.py
index 925815e..ca2dd30 100644
--- a/theseus/embodied/motionmodel/misc.py
+++ b/theseus/embodied/motionmodel/misc.py
@@ -36,7 +36,7 @@ class HingeCost(CostFunction):
                     f"dimension equal to `vector.dof()` ({vector.dof()})."
                 )
         HingeCost._check_limits(self.down_limit, self.up_limit)
-        if self.threshold.tensor.max() < 0.0:
+        if self.threshold.tensor.min() < 0.0:
             raise ValueError("Threshold values must be positive numbers.")
         self.register_optim_var("vector")
         self.register_aux_vars(["down_limit", "up_limit", "threshold"])
-- 
2.43.0


From 881e36329560b9e2678b00b2da4cbc61f49c08e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:26 +0000
Subject: [PATCH 48/59] fix: Lie group check contexts restore the previous mode
 when an exception leaves them

---
 theseus/geometry/lie_group_check.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/lie_group_check.py b/theseus/geometry/lie_group_check.py
index 1305378..7f78fa8 100644
--- a/theseus/geometry/lie_group_check.py
+++ b/theseus/geometry/lie_group_check.py
@@ -50,8 +50,10 @@ def set_lie_group_check_enabled(
     """
     prev = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings)
-    yield
-    _LieGroupCheckContext.set_context(*prev)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(*prev)
 
 
 @contextmanager
@@ -94,5 +96,7 @@ def silence_internal_warnings():
     """
     mode, silent, prev_silence_internal_warnings = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings=True)
-    yield
-    _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
-- 
2.43.0


From 844c04a245605b903dfb37aeb75d21a188646dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:26 +0000
Subject: [PATCH 49/59] fix: as_euclidean takes effect when it is entered, not
 when it is created

---
 torchlie/torchlie/lie_tensor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index 5e518ce..9e5f9fc 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -40,13 +40,10 @@ class _LieAsEuclideanContext:
 
 
 class as_euclidean:
-    def __init__(self) -> None:
+    def __enter__(self) -> None:
         self.prev = _LieAsEuclideanContext.get_context()
         _LieAsEuclideanContext.set_context(True)
 
-    def __enter__(self) -> None:
-        pass
-
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
         _LieAsEuclideanContext.set_context(self.prev)
 
-- 
2.43.0


From 6ec2bb2d152fee637f423ca087156e914823f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:26 +0000
Subject: [PATCH 50/59] fix: masked_variables captures the tensors on entry and
 masks all variables or none

---
 theseus/core/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index c5a8960..1d61ed0 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -137,12 +137,13 @@ class masked_variables:
     def __init__(self, vars: List[Variable], mask: torch.Tensor) -> None:
         assert mask.dtype == torch.bool and mask.ndim == 1
         self._vars = vars
-        self._original_tensors = [v.tensor for v in vars]
+        self._original_tensors: List[torch.Tensor] = []
         self._mask = mask
 
     def __enter__(self) -> None:
+        assert all(v.shape[0] == self._mask.shape[0] for v in self._vars)
+        self._original_tensors = [v.tensor for v in self._vars]
         for v in self._vars:
-            assert v.shape[0] == self._mask.shape[0]
             v.update(v.tensor[self._mask])
 
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
-- 
2.43.0


From cb96c71dd4798b2ab9505b0809b413a4cc31f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:26 +0000
Subject: [PATCH 51/59] fix: LieGroupTensor.add_ does not recurse forever
 outside the tangent mode

---
 theseus/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/utils.py b/theseus/geometry/utils.py
index c9504de..fec1a9d 100644
--- a/theseus/geometry/utils.py
+++ b/theseus/geometry/utils.py
@@ -73,7 +73,7 @@ class LieGroupTensor(torch.Tensor):
             grad = group.project(update)
             self.set_(group.retract(alpha * grad).tensor)
         else:
-            self.add_(update, alpha=alpha)
+            super().add_(update, alpha=alpha)
 
         return self
 
-- 
2.43.0


From d0dbb8eb892bc84969260cb46f6dbe85c3881814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:26 +0000
Subject: [PATCH 52/59] fix: the float64 norm tolerance of SO2 gets its default
 value

---
 theseus/global_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/global_params.py b/theseus/global_params.py
index 1d05ae3..0ee0260 100644
--- a/theseus/global_params.py
+++ b/theseus/global_params.py
@@ -49,8 +49,8 @@ class _TheseusGlobalParams:
         self.se2_near_zero_eps_float32 = 3e-2
         self.se2_d_near_zero_eps_float32 = 1e-1
         self.so3_to_quaternion_sqrt_eps_float32 = 1e-6
-        self.so2_norm_eps_float32 = 1e-12
 
+        self.so2_norm_eps_float64 = 1e-12
         self.so2_matrix_eps_float64 = 4e-7
         self.se2_near_zero_eps_float64 = 1e-6
         self.se2_d_near_zero_eps_float64 = 1e-3
-- 
2.43.0


From d35a64d38469d000a7c6808d408cefc013a9767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 53/59] fix: resetting the torchlie global parameters resets
 all of them

---
 torchlie/torchlie/global_params.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchlie/torchlie/global_params.py b/torchlie/torchlie/global_params.py
index 00e7e8e..5b8e805 100644
--- a/torchlie/torchlie/global_params.py
+++ b/torchlie/torchlie/global_params.py
@@ -57,6 +57,9 @@ class _TorchLieGlobalParams:
         self.so3_hat_eps_float64 = 5e-7
         self.se3_hat_eps_float64 = 5e-7
 
+        self._allow_passthrough_ops = False
+        self._faster_log_maps = False
+
 
 _TORCHLIE_GLOBAL_PARAMS = _TorchLieGlobalParams()
 
-- 
2.43.0


From 670e70f3c3510e2005d6b057f5b37dea78a338f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 54/59] fix: set_global_params sets nothing when it refuses an
 option, and accepts options only

---
 theseus/global_params.py           | 5 +++--
 torchlie/torchlie/global_params.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/theseus/global_params.py b/theseus/global_params.py
index 0ee0260..a1c4b73 100644
--- a/theseus/global_params.py
+++ b/theseus/global_params.py
@@ -74,7 +74,8 @@ def set_global_params(options: Dict[str, Any]) -> None:
             f"following ones:\n    {torchlie_params_found}.\n"
             f"Please use torchlie.set_global_params() to set these tolerances."
         )
-    for k, v in options.items():
-        if not hasattr(_THESEUS_GLOBAL_PARAMS, k):
+    for k in options:
+        if k not in vars(_THESEUS_GLOBAL_PARAMS):
             raise ValueError(f"{k} is not a valid global option for theseus.")
+    for k, v in options.items():
         setattr(_THESEUS_GLOBAL_PARAMS, k, v)
diff --git a/torchlie/torchlie/global_params.py b/torchlie/torchlie/global_params.py
index 5b8e805..b9284dd 100644
--- a/torchlie/torchlie/global_params.py
+++ b/torchlie/torchlie/global_params.py
@@ -65,9 +65,10 @@ _TORCHLIE_GLOBAL_PARAMS = _TorchLieGlobalParams()
 
 
 def set_global_params(options: Dict[str, Any]) -> None:
-    for k, v in options.items():
-        if not hasattr(_TORCHLIE_GLOBAL_PARAMS, k):
+    for k in options:
+        if k not in vars(_TORCHLIE_GLOBAL_PARAMS):
             raise ValueError(f"{k} is not a valid global option for torchlie.")
+    for k, v in options.items():
         setattr(_TORCHLIE_GLOBAL_PARAMS, k, v)
 
 
-- 
2.43.0


From cd7f7afb64f9ac60c629f5119d1a16f0d95467b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 55/59] fix: the Lie group checks of SO3 and SE3 take place
 when they are enabled

---
 theseus/geometry/se3.py |  7 +++++--
 theseus/geometry/so3.py | 10 +++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index a212b13..b2800f8 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -10,6 +10,7 @@ import torch
 
 import theseus.constants
 from torchlie.functional import SE3 as SE3_base
+from torchlie.functional import enable_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext, no_lie_group_check
@@ -119,7 +120,8 @@ class SE3(LieGroup):
         if tensor.ndim != 3 or tensor.shape[1:] != (3, 4):
             raise ValueError("SE3 data tensors can only be 3x4 matrices.")
         try:
-            SE3_base.check_group_tensor(tensor)
+            with enable_checks():
+                SE3_base.check_group_tensor(tensor)
         except ValueError:
             return False
         return True
@@ -150,7 +152,8 @@ class SE3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            return SE3_base.check_hat_tensor(matrix)
+            with enable_checks():
+                SE3_base.check_hat_tensor(matrix)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the skew-symmetry of hat matrices is "
diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index 08c8f63..9b92195 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -11,6 +11,7 @@ import torch
 import theseus.constants
 from theseus.global_params import _THESEUS_GLOBAL_PARAMS
 from torchlie.functional import SO3 as SO3_base
+from torchlie.functional import enable_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext
@@ -119,7 +120,8 @@ class SO3(LieGroup):
             if tensor.ndim != 3 or tensor.shape[1:] != (3, 3):
                 raise ValueError("SO3 data tensors can only be 3x3 matrices.")
             try:
-                SO3_base.check_group_tensor(tensor)
+                with enable_checks():
+                    SO3_base.check_group_tensor(tensor)
             except ValueError:
                 return False
         return True
@@ -131,7 +133,8 @@ class SO3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            SO3_base.check_unit_quaternion(quaternion)
+            with enable_checks():
+                SO3_base.check_unit_quaternion(quaternion)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the validness of unit quaternions is not "
@@ -146,7 +149,8 @@ class SO3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            SO3_base.check_hat_tensor(matrix)
+            with enable_checks():
+                SO3_base.check_hat_tensor(matrix)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the skew-symmetry of hat matrices is "
-- 
2.43.0


From 29eaa12cbe74b40297ce41cf1b9212e9c507b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:26 +0000
Subject: [PATCH 56/59] fix: the check of SE3 hat matrices looks at their last
 row, and SE3.vee performs it

---
 theseus/geometry/se3.py                  | 1 +
 torchlie/torchlie/functional/se3_impl.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index b2800f8..0030a3d 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -221,6 +221,7 @@ class SE3(LieGroup):
 
     @staticmethod
     def vee(matrix: torch.Tensor) -> torch.Tensor:
+        SE3._hat_matrix_check(matrix)
         return SE3_base.vee(matrix)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "SE3":
diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 91866e4..6ed628c 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -50,7 +50,7 @@ def check_tangent_vector(tangent_vector: torch.Tensor):
 
 def check_hat_tensor(tensor: torch.Tensor):
     def _impl(t_: torch.Tensor):
-        if t_[..., -1].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
+        if t_[..., -1, :].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
             raise ValueError("The last row for hat tensors of SE3 must be zero")
 
         SO3.check_hat_tensor(t_[..., :3, :3])
-- 
2.43.0


From 96ec7aa60ef46c0f9c1603e5838a25e8b9709375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:07 +0000
Subject: [PATCH 57/59] fix: a Gaussian refuses a bad precision before its mean
 changes

---
 theseus/optimizer/manifold_gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/theseus/optimizer/manifold_gaussian.py b/theseus/optimizer/manifold_gaussian.py
index 8cf1d98..4c4aa5e 100644
--- a/theseus/optimizer/manifold_gaussian.py
+++ b/theseus/optimizer/manifold_gaussian.py
@@ -81,9 +81,6 @@ class ManifoldGaussian:
                 f"length to original mean sequence. Given: {len(mean)}. "
                 f"Expected: {len(self.mean)}"
             )
-        for i in range(len(self.mean)):
-            self.mean[i].update(mean[i])
-
         expected_shape = torch.Size([mean[0].shape[0], self.dof, self.dof])
         if precision.shape != expected_shape:
             raise ValueError(
@@ -104,6 +101,9 @@ class ManifoldGaussian:
         if not torch.allclose(precision, precision.transpose(1, 2)):
             raise ValueError("Tried to update precision with non-symmetric matrix.")
 
+        for i in range(len(self.mean)):
+            self.mean[i].update(mean[i])
+
         self.precision = precision
 
 
-- 
2.43.0


From d8c01fb0a9ef0b77c72fe6569ccf17c5cd0098a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 58/59] fix: retract_gaussian keeps the precision symmetric

---
 theseus/optimizer/manifold_gaussian.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/theseus/optimizer/manifold_gaussian.py b/theseus/optimizer/manifold_gaussian.py
index 4c4aa5e..51a5b3d 100644
--- a/theseus/optimizer/manifold_gaussian.py
+++ b/theseus/optimizer/manifold_gaussian.py
@@ -160,11 +160,18 @@ def retract_gaussian(
     mean_tp: torch.Tensor,
     precision_tp: torch.Tensor,
 ) -> ManifoldGaussian:
+    asymmetry = (precision_tp - precision_tp.transpose(-1, -2)).abs().max()
+    if asymmetry > 1e-4 * precision_tp.abs().max():
+        raise ValueError("Tried to retract a non-symmetric precision matrix.")
+
     mean = variable.retract(mean_tp)
 
     jac: List[torch.Tensor] = []
     variable.exp_map(mean_tp, jacobians=jac)
     inv_jac = torch.inverse(jac[0])
     precision = torch.bmm(torch.bmm(inv_jac.transpose(-1, -2), precision_tp), inv_jac)
+    # removes the asymmetry that rounding errors leave, which for single precision
+    # is often more than ManifoldGaussian accepts
+    precision = 0.5 * (precision + precision.transpose(-1, -2))
 
     return ManifoldGaussian(mean=[mean], precision=precision)
-- 
2.43.0


From b7f303dcb8266c24b69ef9384f0f18690f7ba3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 59/59] fix: samples are drawn in the precision of the
 objective

---
 theseus/theseus_layer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index da8676c..7184e04 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -122,14 +122,20 @@ class TheseusLayer(nn.Module):
 
         batch_size, n_vars = delta.shape
         y = torch.normal(
-            mean=torch.zeros((n_vars, n_samples), device=delta.device),
-            std=torch.ones((n_vars, n_samples), device=delta.device),
+            mean=torch.zeros(
+                (n_vars, n_samples), device=delta.device, dtype=delta.dtype
+            ),
+            std=torch.ones(
+                (n_vars, n_samples), device=delta.device, dtype=delta.dtype
+            ),
         )
         delta_samples = (torch.linalg.solve_triangular(sqrt_AtA, y, upper=True)) + (
             delta.unsqueeze(-1)
         ).repeat(1, 1, n_samples)
 
-        x_samples = torch.zeros((batch_size, n_vars, n_samples), device=delta.device)
+        x_samples = torch.zeros(
+            (batch_size, n_vars, n_samples), device=delta.device, dtype=delta.dtype
+        )
         for sidx in range(0, n_samples):
             var_idx = 0
             for var in linear_solver.linearization.ordering:
-- 
2.43.0

