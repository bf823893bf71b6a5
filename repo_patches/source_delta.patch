From 81e48f2fe12b0b391849c36a305f1154ec3e8584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 01/17] fix: invert every entry of a sequence that repeats an
 entry object

UnitarySequence.inverse() inverted entries in place, so an entry object used
at two positions was inverted twice and came back unchanged.
---
 stoqcompiler/unitary/unitary_sequence.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 897e003..a66c4b8 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -255,12 +255,12 @@ class UnitarySequence:
         :return: The inverse sequence.
         :rtype: UnitarySequence.
         '''
+        inverse_entries = [
+            UnitarySequenceEntry(
+                entry.unitary.inverse(), entry.get_apply_to())
+            for entry in reversed(self.sequence_entries)]
         inverse_sequence = UnitarySequence(
-            self.get_dimension(), self.get_sequence_entries())
-        inverse_sequence.sequence_entries.reverse()
-        for entry in inverse_sequence.sequence_entries:
-            entry.unitary = entry.unitary.inverse()
-            entry.full_unitary_by_dimension = {}
+            self.get_dimension(), inverse_entries)
         inverse_sequence.sequence_product = self.product().inverse()
         return inverse_sequence
 
-- 
2.43.0


From 5ae9fdfa1fb901c3691dbe4b7cbb4a014128e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 02/17] fix: make sequences built from an array editable

UnitarySequence accepts a numpy array of entries but kept it as an array, so
appending, removing, and inverting failed with AttributeError.
---
 stoqcompiler/unitary/unitary_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index a66c4b8..e18ccf6 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -35,7 +35,7 @@ class UnitarySequence:
                 or isinstance(sequence_entries, np.ndarray))
         [self._assert_is_entry_valid(entry) for entry in sequence_entries]
 
-        self.sequence_entries = copy.deepcopy(sequence_entries)
+        self.sequence_entries = copy.deepcopy(list(sequence_entries))
         self.sequence_product = None
 
         self.previous_entries = None
-- 
2.43.0


From ef00a54db72c3636525ffe774e6ea32cf037fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 03/17] fix: allow compiling with an array of unitary
 primitives

Compiler accepts a numpy array of primitives, but compile() tested its truth
value, which raises ValueError for more than one primitive.
---
 stoqcompiler/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index d8f1c59..2a7c4c0 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -98,7 +98,7 @@ class Compiler:
         :rtype: CompilerResult
         '''
         assert isinstance(target_unitary, Unitary)
-        assert self.unitary_primitives
+        assert len(self.unitary_primitives) > 0
 
         initial_time = time.perf_counter()
         compiled_sequence, cost_by_step = self._compile(
-- 
2.43.0


From 493c7858b9bb144ee9b0f414507545ecbc265e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 04/17] fix: restart the annealing schedule for every
 compilation

The annealing parameter carried over from earlier compile() calls on the same
Compiler, so a reused compiler started out (nearly) greedy.
---
 stoqcompiler/compiler/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 2a7c4c0..c4c812b 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -164,6 +164,7 @@ class Compiler:
         Internal implementation of STOQ compilation.
         See documentation for Compiler.compile() for full details.
         '''
+        self.beta = 0.0
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
 
@@ -254,6 +255,7 @@ class Compiler:
         Internal implementation of layered STOQ compilation.
         See documentation for Compiler.compile_layered() for full details.
         '''
+        self.beta = 0.0
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
 
-- 
2.43.0


From 80f07ccbb67031c82ed0f10fa8c7aefff198ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 05/17] fix: treat a threshold of 1.0 as exact up to numerical
 error

A threshold of None is documented to mean 1.0, but close_to() with 1.0 left no
room for rounding: a unitary was often not close to itself, and compiling
with threshold 1.0 could run forever on an exact result.
---
 stoqcompiler/unitary/unitary.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index 5dbbe85..46a9322 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -295,12 +295,14 @@ class Unitary:
             no threshold is provided.
         :rtype: bool
         '''
-        distance = self.distance_from(u)
-        if threshold is not None:
-            max_distance = 1.0 - threshold
-            return distance <= max_distance
+        if threshold is None:
+            threshold = 1.0
 
-        return np.isclose(distance, 0.0)
+        # allow for numerical error when exactly at the threshold
+        distance = self.distance_from(u)
+        max_distance = 1.0 - threshold
+        return (distance <= max_distance
+                or np.isclose(distance, max_distance, rtol=0.0))
 
     def distance_from(
         self,
-- 
2.43.0


From e7ce8854ee716b7817dc44dc3610130793ab983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 06/17] fix: accept the documented threshold of None when
 generating RAV sequences

Both generators document "If None, a threshold of 1.0 is used" but raised
TypeError.
---
 stoqcompiler/verification/verification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stoqcompiler/verification/verification.py b/stoqcompiler/verification/verification.py
index 63b1e7e..5d661c3 100644
--- a/stoqcompiler/verification/verification.py
+++ b/stoqcompiler/verification/verification.py
@@ -66,7 +66,8 @@ class Verification:
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitives])
         assert sequence_length >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert (threshold is None
+                or (threshold >= 0.0 and threshold <= 1.0))
 
         # Generate a random sequence of the desired length
         random_sequence = UnitarySequence(dimension)
@@ -146,7 +147,8 @@ class Verification:
             isinstance(count, int)
             for count in unitary_primitive_counts.values()])
         assert layer_count >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert (threshold is None
+                or (threshold >= 0.0 and threshold <= 1.0))
 
         # Generate a random sequence of the desired number of layers
         # Total sequence length will therefore be
-- 
2.43.0


From e1c559c2ab0f7cc13e8f1d7ea7de3968f5abb375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 07/17] fix: keep the inverse mark when applying an entry to
 the full system

The display output of an inverted sequence showed the original operations.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 720ea99..0aba347 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -164,6 +164,7 @@ class UnitarySequenceEntry:
                 full_matrix,
                 operation_name,
                 self.unitary.parameter_dict,
+                is_inverse=self.unitary.is_inverse,
                 apply_to=self.get_apply_to())
 
         return self.full_unitary_by_dimension[system_dimension]
-- 
2.43.0


From a78dc421832e24baff524d0064d16689e62e5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 08/17] fix: display plain qubit numbers for randomly chosen
 qubits

With numpy 2, display names of compiled sequences read "Rxy[np.int64(0)]".
---
 stoqcompiler/unitary/unitary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index 46a9322..dbea173 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -192,7 +192,8 @@ class Unitary:
 
         display_name = self.operation_name
         if len(self.apply_to) > 0:
-            display_name += str(self.apply_to)
+            display_name += (
+                "[" + ", ".join(str(q) for q in self.apply_to) + "]")
         if len(self.parameter_dict) > 0:
             display_name += "(" + ", ".join(
                 k + "=" + (as_pi_fraction(v[0]) if v[1] else as_decimal(v[0]))
-- 
2.43.0


From 4eeedcda7110ca37bc5f6f1701179893de8d6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 09/17] fix: leave out probabilities of primitives that allow
 no qubits

Primitives with an empty list of allowed qubits are skipped, but their
probabilities were not, so the random choice raised ValueError.
---
 stoqcompiler/compiler/compiler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index c4c812b..d5d04e7 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -215,10 +215,18 @@ class Compiler:
         '''
         # choose from unitary_primitives where the allowed_apply_to list
         # is not empty
+        is_allowed = [
+            (u.get_allowed_apply_to() is None
+             or len(u.get_allowed_apply_to()) > 0)
+            for u in unitary_primitives]
+        if probabilities is not None and not np.all(is_allowed):
+            assert len(probabilities) == len(unitary_primitives)
+            assert np.isclose(np.sum(probabilities), 1.0)
+            probabilities = np.array(probabilities)[is_allowed]
+            probabilities = probabilities / np.sum(probabilities)
         unitary_primitives = [
-            u for u in unitary_primitives
-            if (u.get_allowed_apply_to() is None
-                or len(u.get_allowed_apply_to()) > 0)]
+            u for u, allowed in zip(unitary_primitives, is_allowed)
+            if allowed]
 
         # randomly choose one of the unitary primitives and assign random
         # parameter values
-- 
2.43.0


From 07f93ee060a89f0afbaad856232e4717547b8302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 10/17] fix: refuse a RAV sequence with zero step time instead
 of looping forever

---
 stoqcompiler/hamiltonian/hamiltonian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stoqcompiler/hamiltonian/hamiltonian.py b/stoqcompiler/hamiltonian/hamiltonian.py
index 5a1f852..087ea8d 100644
--- a/stoqcompiler/hamiltonian/hamiltonian.py
+++ b/stoqcompiler/hamiltonian/hamiltonian.py
@@ -314,6 +314,9 @@ class Hamiltonian:
         :return: A sequence of unitaries implementing RAV.
         :rtype: CompilerResult
         '''
+        # A positive evolution time cannot be reached with steps of zero time
+        assert time <= 0.0 or max_t_step > 0.0
+
         # Generate a random sequence, mostly forward in time
         forward_probability = 0.8
         unitary_primitives = self._get_unitary_primitives(
-- 
2.43.0


From 6560edc4bbc2c0d4fb8cb92dc143ec8eea6b3f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 11/17] fix: copy the qubit list and parameters a unitary is
 built from

---
 stoqcompiler/unitary/unitary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index dbea173..a656a35 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -58,13 +58,13 @@ class Unitary:
         if parameter_dict is None:
             parameter_dict = {}
         assert isinstance(parameter_dict, dict)
-        self.parameter_dict = parameter_dict
+        self.parameter_dict = dict(parameter_dict)
 
         assert isinstance(is_inverse, bool)
         self.is_inverse = is_inverse
 
         assert isinstance(apply_to, list)
-        self.apply_to = apply_to
+        self.apply_to = list(apply_to)
 
         # clean up very small values
         matrix.real[np.abs(matrix.real) < 1e-12] = 0
-- 
2.43.0


From 3d79da0101ad56db7c61101e6a4c166a1f5783ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 12/17] fix: refuse primitives that do not fit the system

---
 stoqcompiler/compiler/compiler.py         | 29 ++++++++++++++++++-----
 stoqcompiler/verification/verification.py |  8 +++++++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index d5d04e7..92b7502 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -55,12 +55,7 @@ class Compiler:
         assert dimension > 0
         assert (isinstance(unitary_primitives, list)
                 or isinstance(unitary_primitives, np.ndarray))
-        assert np.all([
-            isinstance(primitive, UnitaryPrimitive)
-            for primitive in unitary_primitives])
-        assert np.all([
-            primitive.get_unitary().get_dimension() <= dimension
-            for primitive in unitary_primitives])
+        self._assert_are_primitives_valid(dimension, unitary_primitives)
 
         self.dimension = dimension
         self.unitary_primitives = copy.deepcopy(unitary_primitives)
@@ -71,6 +66,26 @@ class Compiler:
         self.annealing_rate = annealing_rate
         self.append_probability = append_probability
 
+    @staticmethod
+    def _assert_are_primitives_valid(
+        dimension: int,
+        unitary_primitives: List[UnitaryPrimitive]
+    ) -> None:
+        '''
+        Validates that the specified unitary primitives can be used
+        with a system of the specified dimension.
+        '''
+        assert np.all([
+            isinstance(primitive, UnitaryPrimitive)
+            for primitive in unitary_primitives])
+        assert np.all([
+            primitive.get_unitary().get_dimension() <= dimension
+            for primitive in unitary_primitives])
+        assert np.all([
+            2**(np.max(apply_to) + 1) <= dimension
+            for primitive in unitary_primitives
+            for apply_to in primitive.get_allowed_apply_to() or []])
+
     def compile(
         self,
         target_unitary: Unitary,
@@ -143,6 +158,8 @@ class Compiler:
         '''
         assert isinstance(target_unitary, Unitary)
         assert isinstance(unitary_primitive_counts, dict)
+        self._assert_are_primitives_valid(
+            self.dimension, list(unitary_primitive_counts.keys()))
 
         initial_time = time.perf_counter()
         compiled_sequence, cost_by_step = self._compile_layered(
diff --git a/stoqcompiler/verification/verification.py b/stoqcompiler/verification/verification.py
index 5d661c3..d53bc2d 100644
--- a/stoqcompiler/verification/verification.py
+++ b/stoqcompiler/verification/verification.py
@@ -65,6 +65,10 @@ class Verification:
         assert np.all([
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitives])
+        assert np.all([
+            2**(np.max(apply_to) + 1) <= dimension
+            for primitive in unitary_primitives
+            for apply_to in primitive.get_allowed_apply_to() or []])
         assert sequence_length >= 0
         assert (threshold is None
                 or (threshold >= 0.0 and threshold <= 1.0))
@@ -143,6 +147,10 @@ class Verification:
         assert np.all([
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitive_counts.keys()])
+        assert np.all([
+            2**(np.max(apply_to) + 1) <= dimension
+            for primitive in unitary_primitive_counts.keys()
+            for apply_to in primitive.get_allowed_apply_to() or []])
         assert np.all([
             isinstance(count, int)
             for count in unitary_primitive_counts.values()])
-- 
2.43.0


From 8a65168f40b33d6507cb966640998e6ecc8433db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 13/17] fix: refuse a layered compilation without primitives

---
 stoqcompiler/compiler/compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 92b7502..7257607 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -158,6 +158,7 @@ class Compiler:
         '''
         assert isinstance(target_unitary, Unitary)
         assert isinstance(unitary_primitive_counts, dict)
+        assert len(unitary_primitive_counts) > 0
         self._assert_are_primitives_valid(
             self.dimension, list(unitary_primitive_counts.keys()))
 
-- 
2.43.0


From 7ece04d2def304f6735733e1fda18fdea664c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 14/17] fix: refuse non-square Hamiltonian matrices in time
 evolution

---
 stoqcompiler/unitary/parameterized_unitary_definitions.py | 1 +
 stoqcompiler/unitary/unitary_definitions.py               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/stoqcompiler/unitary/parameterized_unitary_definitions.py b/stoqcompiler/unitary/parameterized_unitary_definitions.py
index 8ec1849..afef853 100644
--- a/stoqcompiler/unitary/parameterized_unitary_definitions.py
+++ b/stoqcompiler/unitary/parameterized_unitary_definitions.py
@@ -158,6 +158,7 @@ class ParameterizedUnitaryDefinitions:
         :rtype: ParameterizedUnitary
         '''
         assert isinstance(h_matrix, np.ndarray)
+        assert h_matrix.shape == 2 * (h_matrix.shape[0],)
         assert np.allclose(h_matrix, h_matrix.T.conj())
         assert t_min <= t_max
 
diff --git a/stoqcompiler/unitary/unitary_definitions.py b/stoqcompiler/unitary/unitary_definitions.py
index e18ad03..6e336ea 100644
--- a/stoqcompiler/unitary/unitary_definitions.py
+++ b/stoqcompiler/unitary/unitary_definitions.py
@@ -279,6 +279,7 @@ class UnitaryDefinitions:
         :rtype: Unitary
         '''
         assert isinstance(h_matrix, np.ndarray)
+        assert h_matrix.shape == 2 * (h_matrix.shape[0],)
         assert np.allclose(h_matrix, h_matrix.T.conj())
 
         dimension = h_matrix.shape[0]
-- 
2.43.0


From 0e00d55dc9ba7421c4fd311d442ee6279debeb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 15/17] fix: parameterized time evolution keeps its own copy of
 the Hamiltonian matrix

---
 stoqcompiler/unitary/parameterized_unitary_definitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/parameterized_unitary_definitions.py b/stoqcompiler/unitary/parameterized_unitary_definitions.py
index afef853..3ea096d 100644
--- a/stoqcompiler/unitary/parameterized_unitary_definitions.py
+++ b/stoqcompiler/unitary/parameterized_unitary_definitions.py
@@ -162,6 +162,7 @@ class ParameterizedUnitaryDefinitions:
         assert np.allclose(h_matrix, h_matrix.T.conj())
         assert t_min <= t_max
 
+        h_matrix = h_matrix.copy()
         dimension = h_matrix.shape[0]
 
         def u_matrix(
-- 
2.43.0


From a0ddab70c3ad2361a2579427efa566c158f45374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 16/17] fix: ParameterizedUnitary keeps its own copy of the
 parameter list

---
 stoqcompiler/unitary/parameterized_unitary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/parameterized_unitary.py b/stoqcompiler/unitary/parameterized_unitary.py
index cbf49df..8f0b4ca 100644
--- a/stoqcompiler/unitary/parameterized_unitary.py
+++ b/stoqcompiler/unitary/parameterized_unitary.py
@@ -46,7 +46,7 @@ class ParameterizedUnitary:
 
         self.dimension = dimension
         self.parameterized_matrix = parameterized_matrix
-        self.parameters = parameters
+        self.parameters = list(parameters)
         self.operation_name = operation_name
 
     def get_dimension(self) -> int:
-- 
2.43.0


From 6ca1011a62c923d67e6f5c99fcdbd470ee1393ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 17/17] fix: UnitaryPrimitive keeps its own copy of the allowed
 qubit lists

---
 stoqcompiler/unitary/unitary_primitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_primitive.py b/stoqcompiler/unitary/unitary_primitive.py
index 188cac4..872f04f 100644
--- a/stoqcompiler/unitary/unitary_primitive.py
+++ b/stoqcompiler/unitary/unitary_primitive.py
@@ -28,7 +28,8 @@ class UnitaryPrimitive:
         Creates a UnitaryPrimitive object.
         '''
         if allowed_apply_to is not None:
-            allowed_apply_to = list(allowed_apply_to)
+            allowed_apply_to = [
+                list(apply_to) for apply_to in allowed_apply_to]
             assert np.all([
                 len(apply_to) == len(set(apply_to))
                 for apply_to in allowed_apply_to])
-- 
2.43.0

