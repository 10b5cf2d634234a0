From f53da8d0c331deb543c912e7b2481d9fea8d4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 01/27] fix: register attribute keys introduced by
 update_interaction

---
 sawatabi/model/logical_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f528bda..8e318ef 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -255,6 +255,7 @@ class LogicalModel(AbstractModel):
                 attrs_key = f"attributes.{k}"
                 if attrs_key not in self._interactions_array:
                     self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
+                    self._interactions_attrs.append(attrs_key)
                 self._interactions_array[attrs_key][update_idx] = v
         self._interactions_array["timestamp"][update_idx] = timestamp
         self._interactions_array["dirty"][update_idx] = True
-- 
2.43.0


From 4b41b6eee111b2329155d7e7d936fed18a326572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 02/27] fix: keep attributes when update_interaction adds a
 missing interaction

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 8e318ef..ad1f38d 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -238,7 +238,7 @@ class LogicalModel(AbstractModel):
                 warnings.warn(f"An interaction named '{internal_name}' does not exist yet in the model, but will be added instead of updating it.")
                 _coefficient = 0.0 if coefficient is None else coefficient
                 _scale = 1.0 if scale is None else scale
-                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, timestamp=timestamp)
+                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, attributes=attributes, timestamp=timestamp)
 
         if self._is_removed(internal_name):
             raise ValueError(f"An interaction named '{internal_name}' is already removed.")
-- 
2.43.0


From db6fff6d7c98ce0b6e6c0d9bebc59c7a5dbf40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 03/27] fix: update_interaction defaults to the time of the
 call, not of the import

---
 sawatabi/model/logical_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index ad1f38d..1fa5f27 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -206,7 +206,7 @@ class LogicalModel(AbstractModel):
         coefficient=None,
         scale=None,
         attributes=None,
-        timestamp=current_time(),
+        timestamp=None,
     ):
         if (not target) and (not name):
             raise ValueError("Either 'target' or 'name' must be specified.")
@@ -219,8 +219,9 @@ class LogicalModel(AbstractModel):
             self._check_argument_type("scale", scale, numbers.Number)
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
-        if timestamp is not None:
-            self._check_argument_type("timestamp", timestamp, (int, float))
+        if timestamp is None:
+            timestamp = current_time()
+        self._check_argument_type("timestamp", timestamp, (int, float))
 
         if target is not None:
             interaction_info = self._get_interaction_info_from_target(target)
-- 
2.43.0


From ed14d6240bc9c0201d878d12fa6f3576d08682b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 04/27] fix: fix_variable ignores interactions that are already
 removed

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 1fa5f27..ce3328a 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -391,7 +391,7 @@ class LogicalModel(AbstractModel):
         self._fixed[target.label] = True
 
         # Update related interations
-        selected = self.select_interactions_by_variable(target)
+        selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
 
         if len(selected) <= 0:
             warnings.warn("No interactions updated.")
-- 
2.43.0


From 51f7351e7a85109741bb408a3a0e2864df8b429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 05/27] fix: delete_variable works with any constraint and any
 membership

---
 sawatabi/model/logical_model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index ce3328a..77a32f5 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -24,7 +24,7 @@ import pyqubo
 
 import sawatabi.constants as constants
 from sawatabi.model.abstract_model import AbstractModel
-from sawatabi.model.constraint import AbstractConstraint
+from sawatabi.model.constraint import AbstractConstraint, EqualityConstraint
 from sawatabi.model.physical_model import PhysicalModel
 from sawatabi.utils.functions import Functions
 from sawatabi.utils.time import current_time
@@ -362,8 +362,15 @@ class LogicalModel(AbstractModel):
         self._deleted[target.label] = True
 
         # Deal with constraints
-        for k, v in self.get_constraints().items():
-            v.remove_variable(variables=target)
+        for v in self.get_constraints().values():
+            if isinstance(v, EqualityConstraint):
+                memberships = [(v.get_variables_1(), v.remove_variable_from_1), (v.get_variables_2(), v.remove_variable_from_2)]
+            else:
+                memberships = [(v.get_variables(), v.remove_variable)]
+            for members, remove_variable in memberships:
+                found = {m for m in members if m.label == target.label}
+                if found:
+                    remove_variable(variables=found)
 
         # Remove related interations
         removed = self.select_interactions_by_variable(target)
-- 
2.43.0


From 68a5d24659156c89ca04f2045ab0c15ef196ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 06/27] fix: to_ising and to_qubo take the scale of
 interactions into account

---
 sawatabi/model/logical_model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 77a32f5..55d2e6a 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -730,7 +730,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
-                self._offset += coeff * 0.5
+                self._offset += coeff * h["scale"] * 0.5
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -738,12 +738,12 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * J["scale"] * 0.25
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * J["scale"] * 0.25
                 )
-                self._offset += coeff * 0.25
+                self._offset += coeff * J["scale"] * 0.25
         else:
             warnings.warn("The model is already an Ising model.")
 
@@ -765,7 +765,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
-                self._offset -= coeff
+                self._offset -= coeff * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -773,12 +773,12 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * J["scale"] * 2.0
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * J["scale"] * 2.0
                 )
-                self._offset += coeff
+                self._offset += coeff * J["scale"]
         else:
             warnings.warn("The model is already a QUBO model.")
 
-- 
2.43.0


From 3b2f50e65f495d427837233e66cb417a4959e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 07/27] fix: SawatabiSolver honours seed=0

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 39437be..8cdbd47 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -67,7 +67,7 @@ class SawatabiSolver(AbstractSolver):
                 raise ValueError("reverse_options must contain 'reverse_temperature'")
 
         # Use a rangom generator so that this random sequence is isolated
-        if seed:
+        if seed is not None:
             self._rng = np.random.default_rng(seed)
         else:
             self._rng = np.random.default_rng()
-- 
2.43.0


From 292d2856d48bff8f34789132e375189ed256ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 08/27] fix: SawatabiSolver does not modify the caller's
 initial_states

---
 sawatabi/solver/sawatabi_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 8cdbd47..425e312 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -81,10 +81,7 @@ class SawatabiSolver(AbstractSolver):
 
             # Convert initial states as well
             if initial_states:
-                for i, initial_state in enumerate(initial_states):
-                    for k, v in initial_state.items():
-                        if v == 0:
-                            initial_states[i][k] = -1
+                initial_states = [{k: (-1 if v == 0 else v) for k, v in initial_state.items()} for initial_state in initial_states]
 
         self._model = model
         self._bqm = bqm
-- 
2.43.0


From 8702933771249b26211a56ca4aa7ce69787b1c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 09/27] fix: empty reverse_options means forward annealing

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 425e312..555f4de 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -168,7 +168,7 @@ class SawatabiSolver(AbstractSolver):
             reverse_target_temperature = reverse_options["reverse_temperature"]  # The max temperature when the phase is reverse annealing
 
         energy = initial_energy
-        reversing_phase = reverse_options is not None
+        reversing_phase = bool(reverse_options)
         sweep = 0
 
         energy_hist = []
-- 
2.43.0


From 2697f37d2543192a2f17ecdfa1b7e206bb8901ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 10/27] fix: the first window is never outdated, whatever its
 event time

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 60b28ef..56316a9 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -79,7 +79,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Extract the previous timestamp, elements, and model from state
             if len(timestamp_state_as_list) == 0:
-                prev_timestamp = -1.0
+                prev_timestamp = float("-inf")
             else:
                 prev_timestamp = timestamp_state_as_list[-1]
             if len(elements_state_as_list) == 0:
-- 
2.43.0


From db4588ba98adddd1cad8d3f331a1bd6cbf018ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 11/27] fix: outdated message names the timestamp already
 processed

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 56316a9..50b1f0c 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -100,7 +100,7 @@ class AbstractAlgorithm(BaseMixin):
             if float(timestamp) < float(prev_timestamp):
                 yield (
                     f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
-                    + f"while an event with timestamp of {timestamp.to_utc_datetime()} has been already processed."
+                    + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
                 )
                 return
 
-- 
2.43.0


From 2cb5a78a32c5d64865c34b3f2a6055c5278ff56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 12/27] fix: partial algorithm reports every dropped element as
 outgoing and keeps each element once

---
 sawatabi/algorithm/abstract_algorithm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 50b1f0c..b219a15 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -112,8 +112,8 @@ class AbstractAlgorithm(BaseMixin):
             # Partial: Merge current window with the specified data.
             elif algorithm == sawatabi.constants.ALGORITHM_PARTIAL:
                 filter_fn = algorithm_options["filter_fn"]
-                filtered = filter(filter_fn, prev_elements)
-                sorted_elements = list(filtered) + sorted_elements
+                filtered = [p for p in prev_elements if filter_fn(p) and p not in sorted_elements]
+                sorted_elements = filtered + sorted_elements
                 sorted_elements = sorted(sorted_elements)
 
             # Resolve outgoing elements in this iteration
@@ -126,6 +126,9 @@ class AbstractAlgorithm(BaseMixin):
                 return outgoing
 
             outgoing = resolve_outgoing(prev_elements, sorted_elements)
+            if algorithm == sawatabi.constants.ALGORITHM_PARTIAL:
+                # Elements retained by the filter may be older than elements which have left
+                outgoing = [p for p in prev_elements if p not in sorted_elements]
 
             # Resolve incoming elements in this iteration
             def resolve_incoming(prev_elements, sorted_elements):
-- 
2.43.0


From 9e7d887ea32caecdea9797087dedd9730d6ced28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 13/27] fix: get_size counts a variable that is both fixed and
 deleted once

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 55d2e6a..6bac661 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -814,7 +814,7 @@ class LogicalModel(AbstractModel):
         """
         Returns the number of all alive variables (i.e., variables which are not removed or fixed).
         """
-        return self.get_all_size() - self.get_deleted_size() - self.get_fixed_size()
+        return self.get_all_size() - len(self._deleted.keys() | self._fixed.keys())
 
     def get_deleted_size(self):
         """
-- 
2.43.0


From f0a1f321471c79438ca9a32c837fb27fad70da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 14/27] fix: a failing to_physical leaves the model unchanged

---
 sawatabi/model/logical_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 6bac661..05d7a2d 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -505,6 +505,15 @@ class LogicalModel(AbstractModel):
     ################################
 
     def to_physical(self, placeholder=None):
+        original = (self._offset, self._interactions_array, self._interactions_attrs, self._interactions_length)
+        try:
+            return self._to_physical(placeholder)
+        except Exception:
+            # Discard the interactions merged from constraints
+            self._offset, self._interactions_array, self._interactions_attrs, self._interactions_length = original
+            raise
+
+    def _to_physical(self, placeholder=None):
         if placeholder is None:
             placeholder = {}
         physical = PhysicalModel(mtype=self._mtype)
-- 
2.43.0


From 302677f02fec4b13f6314b96475d77b8aa88fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 15/27] fix: merge rejects conflicting constraint labels before
 changing the model

---
 sawatabi/model/logical_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 05d7a2d..7624942 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -640,6 +640,10 @@ class LogicalModel(AbstractModel):
                 if len(value.shape) != len(other._variables[key].shape):
                     raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
 
+        # If both models have a constraint with the same label, cannnot merge currently
+        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
+            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
+
         # Merge variables
         for key, value in other._variables.items():
             if key not in self._variables:
@@ -678,9 +682,6 @@ class LogicalModel(AbstractModel):
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        # If both models have a constraint with the same label, cannnot merge currently
-        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
-            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
         self._constraints.update(other._constraints)
 
         # Merge other fields
-- 
2.43.0


From 3db3a21d4cf87cf6b5eff5953f4e8e4eb06c63e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 16/27] fix: solve_npp_with_dp enumerates the empty partition
 of a single number

---
 sawatabi/utils/npp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/utils/npp.py b/sawatabi/utils/npp.py
index 3012fb4..e383c2b 100644
--- a/sawatabi/utils/npp.py
+++ b/sawatabi/utils/npp.py
@@ -34,7 +34,7 @@ def solve_npp_with_dp(numbers, enumerate_all=False, print_dp_table=False):
 
     # Initialize the top row with True
     for j in range(n + 1):
-        dp[0][j] = (True, [])
+        dp[0][j] = (True, [[]] if enumerate_all else [])
 
     # Initialize the left column with False (except 0)
     for i in range(1, s + 1):
-- 
2.43.0


From f176302e021c67774cc98730ea5f2d199bc33dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 17/27] fix: constraints do not share the caller's set of
 variables

---
 sawatabi/model/constraint/abstract_constraint.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 7197ea2..b33ec23 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -36,8 +36,6 @@ class AbstractConstraint(BaseMixin):
         self._check_argument_type("variables", variables, (pyqubo.Array, pyqubo.Spin, pyqubo.Binary, list, set))
         if isinstance(variables, (list, set)):
             self._check_argument_type_in_list("variables", variables, (pyqubo.Spin, pyqubo.Binary))
-        if isinstance(variables, set):
-            return variables
         if isinstance(variables, pyqubo.Array):
             variables = list(Functions._flatten(variables.bit_list))
         elif isinstance(variables, (pyqubo.Spin, pyqubo.Binary)):
-- 
2.43.0


From 8c8f0f8e8e4ba2531aabc3fac0636af808cfb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:13 +0000
Subject: [PATCH 18/27] fix: to_physical discards a removed interaction named
 like a constraint's interaction

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 7624942..7be70d7 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -539,7 +539,7 @@ class LogicalModel(AbstractModel):
         # group by key
         for i in range(self._interactions_length):
             if self._interactions_array["removed"][i]:
-                will_remove.append(self._interactions_array["name"][i])
+                will_remove.append(original_interactions_array["name"][i])
                 continue
 
             # Resolve placeholders for coefficients and scales, using PyQUBO.
-- 
2.43.0


From a986b744933edebddae87b81d52587c536ced27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 19/27] fix: from_pyqubo does not negate the coefficients of
 the given PyQUBO model

---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 7be70d7..50711ee 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -486,8 +486,8 @@ class LogicalModel(AbstractModel):
             coeff = v
             if isinstance(coeff, pyqubo.Coefficient):
                 assert isinstance(coeff.terms, collections.defaultdict)
-                for placeholder_k, _ in coeff.terms.items():
-                    coeff.terms[placeholder_k] *= -1
+                # Do not negate in place, the terms belong to the given PyQUBO model
+                coeff = pyqubo.Coefficient(collections.defaultdict(float, {placeholder_k: -1 * term for placeholder_k, term in coeff.terms.items()}))
             else:
                 coeff *= -1
 
-- 
2.43.0


From 1e39af4b0f8f0fb5f2c3a887d5491e3279e41c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:21 +0000
Subject: [PATCH 20/27] fix: update_interaction accepts placeholders like
 add_interaction, so models with placeholders can change type

---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 50711ee..a9b6942 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -214,9 +214,9 @@ class LogicalModel(AbstractModel):
             raise ValueError("Both 'target' and 'name' cannot be specified simultaneously.")
 
         if coefficient is not None:
-            self._check_argument_type("coefficient", coefficient, numbers.Number)
+            self._check_argument_type("coefficient", coefficient, (numbers.Number, pyqubo.core.Express, pyqubo.core.Coefficient))
         if scale is not None:
-            self._check_argument_type("scale", scale, numbers.Number)
+            self._check_argument_type("scale", scale, (numbers.Number, pyqubo.core.Express))
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
         if timestamp is None:
-- 
2.43.0


From f1a7a0215404ef2d126673932c4f8022adfe97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:48 +0000
Subject: [PATCH 21/27] fix: energy_history of SawatabiSolver has the right
 sign of the offset

---
 sawatabi/solver/sawatabi_solver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 555f4de..c290724 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -157,6 +157,8 @@ class SawatabiSolver(AbstractSolver):
         initial_sample = dict(zip(list(self._model._index_to_label.values()), x))
         # logger.info(f"initial_spins: {initial_sample}")
         initial_energy = self._bqm.energy(initial_sample) * -1.0  # Note that the signs of original bqm is opposite from ours
+        # Deal with offset, whose sign is not opposite
+        initial_energy += self._original_bqm.offset * 2
         # logger.info(f"initial_energy: {initial_energy}")
 
         if not reverse_options:
@@ -224,9 +226,6 @@ class SawatabiSolver(AbstractSolver):
         # recalc_energy = self._bqm.energy(sample) * -1.0
         # assert math.isclose(energy, recalc_energy, rel_tol=1e-9, abs_tol=1e-9)
 
-        # Deal with offset
-        energy += self._original_bqm.offset * 2
-
         return sample, energy, energy_hist, temperature_hist, acceptance_hist
 
     def calc_energy_diff(self, idx, x):
-- 
2.43.0


From f406f68c60a7fb5dfd8db3a6b820ba587f024d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:58 +0000
Subject: [PATCH 22/27] fix: attenuation survives a window whose model has no
 interactions

---
 sawatabi/algorithm/abstract_algorithm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index b219a15..88d3b38 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -167,9 +167,10 @@ class AbstractAlgorithm(BaseMixin):
             # Attenuation: Update scale based on data timestamp.
             if algorithm == sawatabi.constants.ALGORITHM_ATTENUATION:
                 model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
-                ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
-                min_ts = min(ref_timestamp)
-                max_ts = max(ref_timestamp)
+                # A model without any interactions has nothing to scale (and may not even have the key).
+                ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]] if model._interactions_length > 0 else []
+                min_ts = min(ref_timestamp, default=0.0)
+                max_ts = max(ref_timestamp, default=0.0)
                 min_scale = algorithm_options["attenuation.min_scale"]
                 if min_ts < max_ts:
                     for i, t in enumerate(ref_timestamp):
-- 
2.43.0


From 3ddf618664e1f95d473758b0b6e640481f1a55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:45 +0000
Subject: [PATCH 23/27] fix: merge gives every renamed interaction a unique
 name

---
 sawatabi/model/logical_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index a9b6942..3d6c80f 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -669,13 +669,18 @@ class LogicalModel(AbstractModel):
         duplicate_names = list(set(self._interactions_array["name"]) & set(other._interactions_array["name"]))
 
         # Rename duplicate interaction names by adding suffix of model id
+        used_names = set(merged_interactions_with_duplication["name"])
         for idx, name in enumerate(merged_interactions_with_duplication["name"]):
             if name in duplicate_names:
                 if idx < self._interactions_length:
                     model_id = id(self)
                 else:
                     model_id = id(other)
-                merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
+                new_name = f"{name} ({model_id})"
+                while new_name in used_names:
+                    new_name = f"{new_name} ({model_id})"
+                used_names.add(new_name)
+                merged_interactions_with_duplication["name"][idx] = new_name
 
         self._interactions_array = merged_interactions_with_duplication
         self._interactions_attrs = merged_attrs
-- 
2.43.0


From d7adc7721de23af41158f27dec286769de51c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:25 +0000
Subject: [PATCH 24/27] fix: fixing an interaction again after it was fixed and
 converted before

---
 sawatabi/model/logical_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 3d6c80f..7deb5b5 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -424,6 +424,9 @@ class LogicalModel(AbstractModel):
                     elif interacts[1].label == target.label:
                         interacts_to = interacts[0]
                     new_name = f"{interacts_to.label} (before fixed: {s})"
+                    while self._has_name(new_name):
+                        # The same interaction was fixed before
+                        new_name = f"{new_name} (again)"
                     new_coefficient = value * self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
                     self.add_interaction(target=interacts_to, name=new_name, coefficient=new_coefficient)
                     self.remove_interaction(name=s)
-- 
2.43.0


From 8bd08663e6f059be3f575dbc3cd37d4c077d6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:03 +0000
Subject: [PATCH 25/27] fix: imported PyQUBO placeholders can take part in
 constraints, merging, fixing and conversion

---
 sawatabi/model/logical_model.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 7deb5b5..92c10f8 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import collections
 import copy
 import numbers
 import pprint
@@ -488,11 +487,8 @@ class LogicalModel(AbstractModel):
 
             coeff = v
             if isinstance(coeff, pyqubo.Coefficient):
-                assert isinstance(coeff.terms, collections.defaultdict)
-                # Do not negate in place, the terms belong to the given PyQUBO model
-                coeff = pyqubo.Coefficient(collections.defaultdict(float, {placeholder_k: -1 * term for placeholder_k, term in coeff.terms.items()}))
-            else:
-                coeff *= -1
+                coeff = self._coefficient_to_express(coeff)
+            coeff = -1 * coeff
 
             if k[0] == k[1]:
                 # 1-body
@@ -502,6 +498,20 @@ class LogicalModel(AbstractModel):
                 self.add_interaction(target=(target_0, target_1), coefficient=coeff)
 
         self._offset = compiled_qubo.offset
+        if isinstance(self._offset, pyqubo.Coefficient):
+            self._offset = self._coefficient_to_express(self._offset)
+
+    @staticmethod
+    def _coefficient_to_express(coefficient):
+        """
+        Converts a PyQUBO coefficient (a polynomial of placeholders) to an expression, so that it can be a part of further calculations.
+        """
+        express = 0.0
+        for placeholders, term in coefficient.terms.items():
+            for label, power in placeholders.keys.items():
+                term = term * pyqubo.Placeholder(label) ** int(power)
+            express = express + term
+        return express
 
     ################################
     # Converts
-- 
2.43.0


From 9357c06588a726da5840a81f6a8ed85217c27b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:25 +0000
Subject: [PATCH 26/27] fix: give every variable of a physical model an index,
 also when it was deleted before and is used again

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 92c10f8..9b03128 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -606,7 +606,7 @@ class LogicalModel(AbstractModel):
         for val in self._variables.values():
             flattened = list(Functions._flatten(val.bit_list))
             for v in flattened:
-                if (v.label not in self._deleted) and (v.label in physical._variables_set):
+                if v.label in physical._variables_set:
                     physical._label_to_index[v.label] = current_index
                     physical._index_to_label[current_index] = v.label
                     current_index += 1
-- 
2.43.0


From 6d090beda7251bbdf38253dad6772c5ec08c00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:02 +0000
Subject: [PATCH 27/27] fix: name of a given PyQUBO array that itself contains
 a bracket

variables() cut the label of the array's first element at the first bracket,
so an array named 'x[0]' was registered as 'x' and could not be found, appended
or deleted under its own name. Only the index at the end is cut now.
---
 sawatabi/model/logical_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 9b03128..3f5574f 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -64,9 +64,8 @@ class LogicalModel(AbstractModel):
             ):
                 raise TypeError("Model type and PyQUBO Array type mismatch.")
 
-            # Retrieve label from the pyqubo variable
-            found = flattened[0].label.index("[")
-            this_name = flattened[0].label[:found]
+            # Retrieve label from the pyqubo variable (the last brackets hold its index)
+            this_name = flattened[0].label.rsplit("[", len(name.shape))[0]
 
             self._variables[this_name] = name
             return self._variables[this_name]
-- 
2.43.0

