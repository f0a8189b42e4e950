From de83d7ca7e9dcc5abffce3c6bdb6858bf8a96928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 01/30] fix: rot_surface_code_xzzx QEC round re-applied the CZs
 of step e in step g

---
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index 9c5df8b..f713fa5 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -196,7 +196,7 @@ def qec_round_iterator(
     yield model.tick()
 
     # g
-    cz_circit = Circuit()
+    cz_circuit = Circuit()
     interacted_qubits = set()
     for stab_type in stab_types:
         stab_qubits = layout.get_qubits(role="anc", stab_type=stab_type)
-- 
2.43.0


From 6b18c4a1346ba8671e069e5a21cbe2965aa774b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:20 +0000
Subject: [PATCH 02/30] fix: rotated set_trans_s compared float coordinates
 exactly, so the S gate depended on the layout placement

---
 surface_sim/log_gates/rot_surface_code_css.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index a9cb573..418e1df 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -65,12 +65,14 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
     data_qubit_coords = np.array(layout.param("coords", data_qubit))
 
     # get the CZs from the data qubit positions
+    # the coordinates are rounded to avoid numerical issues
     coords_to_label_dict = {
-        tuple(attr["coords"]): node for node, attr in layout.graph.nodes.items()
+        tuple(np.round(attr["coords"], decimals=5)): node
+        for node, attr in layout.graph.nodes.items()
     }
 
     def coords_to_label(c):
-        c = tuple(c)
+        c = tuple(np.round(c, decimals=5))
         if c not in coords_to_label_dict:
             return None
         else:
@@ -87,7 +89,7 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
         label1 = coords_to_label(coords1)
 
         if label1 is None:
-            top_column += jump_v + jump_h
+            top_column = top_column + jump_v + jump_h
             curr_level = 0
             continue
 
@@ -109,7 +111,7 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
             break
 
         s_gates[label] = "S"
-        coords += jump_h + jump_v
+        coords = coords + jump_h + jump_v
 
     label = coords_to_label(coords - jump_h - jump_v)
     s_gates[label] = "S_DAG"
-- 
2.43.0


From 79cac8f98dccd43063b54414e8f44d320e3d8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:55 +0000
Subject: [PATCH 03/30] fix: detectors composed several logical gates between
 two QEC rounds in the wrong order and inverted generators over the reals

---
 surface_sim/detectors/detectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index ad4f015..659b2eb 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -546,9 +546,10 @@ def _get_ancilla_meas_for_detectors(
     basis_arr = basis.sel(stab_gen=anc_qubits).values
     prev_gen_arr = prev_gen.sel(stab_gen=anc_qubits).values
 
-    # convert self.prev_gen and self.curr_gen to the frame basis
-    curr_gen_arr = curr_gen_arr @ np.linalg.inv(basis_arr)
-    prev_gen_arr = prev_gen_arr @ np.linalg.inv(basis_arr)
+    # express the frame basis in terms of the generators measured in the current
+    # and previous rounds. The inverse needs to be computed in GF(2).
+    curr_gen_arr = GF2(basis_arr) @ np.linalg.inv(GF2(curr_gen_arr))
+    prev_gen_arr = GF2(basis_arr) @ np.linalg.inv(GF2(prev_gen_arr))
 
     # get all outcomes that need to be XORed
     detectors = {}
-- 
2.43.0


From 8862e6b3308674f3af2443df7c50d6ef64d9b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:56 +0000
Subject: [PATCH 04/30] fix: merge_tick_blocks reordered measurements or failed
 for blocks with different noise parameters

---
 surface_sim/util/circuit_operations.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index c9fd819..93bff62 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -94,23 +94,20 @@ def merge_tick_blocks(*blocks: stim.Circuit) -> stim.Circuit:
     including noise channels).
     """
     ops_blocks = [tuple(instr.name for instr in block) for block in blocks]
-    if len(set(len(b) for b in ops_blocks)) != 1:
-        raise ValueError("The given blocks do not have the same number of operatons.")
 
-    mergeable_blocks = {}
-    for block, op_block in zip(blocks, ops_blocks):
-        if op_block not in mergeable_blocks:
-            mergeable_blocks[op_block] = [block]
-        else:
-            mergeable_blocks[op_block].append(block)
+    # the instructions can only be interleaved if it does not change the order
+    # of the measurements, which is 'block by block'. If the blocks do not have the
+    # same structure (e.g. they have different noise parameters), they are concatenated.
+    num_meas_instr = sum(op in MEAS_INSTR for op in ops_blocks[0])
+    if len(set(ops_blocks)) != 1 or num_meas_instr > 1:
+        return sum(blocks, start=stim.Circuit())
 
     merged_circuit = stim.Circuit()
     for t, _ in enumerate(ops_blocks[0]):
-        for mblocks in mergeable_blocks.values():
-            for block in mblocks:
-                # the trick with the indices ensures that the returned object
-                # is a stim.Circuit instead of a stim.CircuitInstruction
-                merged_circuit += block[t : t + 1]
+        for block in blocks:
+            # the trick with the indices ensures that the returned object
+            # is a stim.Circuit instead of a stim.CircuitInstruction
+            merged_circuit += block[t : t + 1]
 
     return merged_circuit
 
-- 
2.43.0


From 87112da11b80c4571afdde7117cfc9c99bfc8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:23 +0000
Subject: [PATCH 05/30] fix: merge_log_meas with different bases did not
 measure all layouts

---
 surface_sim/util/circuit_operations.py | 27 ++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 93bff62..a162221 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -1,10 +1,11 @@
-from collections.abc import Sequence, Callable
+from collections.abc import Sequence, Callable, Iterator
+from itertools import islice
 
 import stim
 
 from ..layouts import Layout
 from ..detectors import Detectors, get_support_from_adj_matrix
-from ..models import Model
+from ..models import Model, NoiselessModel
 
 
 MEAS_INSTR = [
@@ -274,11 +275,29 @@ def merge_log_meas(
         if set(anc_detectors) > set(sum(anc_qubits, start=[])):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
+    # the measurements of all layouts need to be performed at the same time, thus
+    # the layouts that require fewer blocks (e.g. no basis rotation) need to idle.
+    # A noiseless model is used so that the measurement records are not updated.
+    dry_model = NoiselessModel({q: k for k, q in enumerate(model.qubits)})
+    num_blocks = [
+        len([*log_meas_iterator(model=dry_model, layout=l, rot_basis=r, **kargs)])
+        for l, r in zip(layouts, rot_bases)
+    ]
+
+    def idle_before_meas(iterator: Iterator, layout: Layout, n: int) -> Iterator:
+        yield from islice(iterator, max(n - 2, 0))
+        for _ in range((max(num_blocks) - n) // 2):
+            yield model.idle(layout.get_qubits())
+            yield model.tick()
+        yield from iterator
+
     circuit = stim.Circuit()
     for blocks in zip(
         *[
-            log_meas_iterator(model=model, layout=l, rot_basis=r, **kargs)
-            for l, r in zip(layouts, rot_bases)
+            idle_before_meas(
+                log_meas_iterator(model=model, layout=l, rot_basis=r, **kargs), l, n
+            )
+            for l, r, n in zip(layouts, rot_bases, num_blocks)
         ]
     ):
         merged_block = merge_tick_blocks(*blocks)
-- 
2.43.0


From f6af948bfc3d34ef77b471e2decfbaf6b9b43fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:12 +0000
Subject: [PATCH 06/30] fix: deactivating detectors after logical gates could
 make the stabilizer generators singular

---
 surface_sim/detectors/detectors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 659b2eb..b8c34b2 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -128,6 +128,16 @@ class Detectors:
                 "Elements in 'anc_qubits' are not ancilla qubits in this object."
             )
 
+        # only the transformation from the previous to the current generators matters.
+        # Describing it with 'prev_gen' being the identity ensures that setting
+        # the generators of the ancillas to the identity does not make them singular.
+        labels = list(self.anc_qubit_labels)
+        curr_gen_arr = GF2(self.curr_gen.sel(stab_gen=labels).values)
+        prev_gen_arr = GF2(self.prev_gen.sel(stab_gen=labels).values)
+        self.prev_gen = deepcopy(self.init_gen)
+        self.curr_gen = deepcopy(self.init_gen)
+        self.curr_gen.values = np.array(curr_gen_arr @ np.linalg.inv(prev_gen_arr))
+
         for anc in anc_qubits:
             if not self.anc_qubits[anc]:
                 raise ValueError(f"Ancilla {anc} was already active.")
-- 
2.43.0


From 37cbbcc321a776292e9a3b2fa2582611b654072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:24 +0000
Subject: [PATCH 07/30] fix: detectors mixed up the number of rounds of
 ancillas activated at different times

---
 surface_sim/detectors/detectors.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index b8c34b2..f3904b3 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -567,14 +567,17 @@ def _get_ancilla_meas_for_detectors(
         c_gen_inds = np.where(c_gen)[0]
         p_gen_inds = np.where(p_gen)[0]
 
-        targets = [(anc_qubits[ind], -1) for ind in c_gen_inds]
-        if num_rounds[anc_qubit] >= 2:
-            targets += [(anc_qubits[ind], -2) for ind in p_gen_inds]
-
-        if not anc_reset_curr and num_rounds[anc_qubit] >= 2:
-            targets += [(anc_qubits[ind], -2) for ind in c_gen_inds]
-        if not anc_reset_prev and num_rounds[anc_qubit] >= 3:
-            targets += [(anc_qubits[ind], -3) for ind in p_gen_inds]
+        c_gen_ancs = [anc_qubits[ind] for ind in c_gen_inds]
+        p_gen_ancs = [anc_qubits[ind] for ind in p_gen_inds]
+
+        # each ancilla may have a different number of rounds
+        targets = [(a, -1) for a in c_gen_ancs]
+        targets += [(a, -2) for a in p_gen_ancs if num_rounds[a] >= 2]
+
+        if not anc_reset_curr:
+            targets += [(a, -2) for a in c_gen_ancs if num_rounds[a] >= 2]
+        if not anc_reset_prev:
+            targets += [(a, -3) for a in p_gen_ancs if num_rounds[a] >= 3]
 
         detectors[anc_qubit] = targets
 
-- 
2.43.0


From d1d05377be84343861c72bee4cbb3ec85f4d1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:10 +0000
Subject: [PATCH 08/30] fix: alternating repeated-CNOT experiment did not
 alternate and permuted the observables

---
 surface_sim/experiments/rot_surface_code_css.py   | 6 +++---
 surface_sim/experiments/unrot_surface_code_css.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/surface_sim/experiments/rot_surface_code_css.py b/surface_sim/experiments/rot_surface_code_css.py
index 3d0b794..cf64200 100644
--- a/surface_sim/experiments/rot_surface_code_css.py
+++ b/surface_sim/experiments/rot_surface_code_css.py
@@ -308,9 +308,9 @@ def repeated_cnot_experiment(
     for k in range(num_cnot_gates):
         if (cnot_orientation == "alternating") and (k % 2 == 1):
             # change control and target of t-CNOT
-            layout_c, layout_t = layout_t, layout_c
-
-        experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
+            experiment += log_trans_cnot(model, layout_t, layout_c, detectors)
+        else:
+            experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
 
         for _ in range(num_rounds_per_gate):
             experiment += merge_qec_rounds(
diff --git a/surface_sim/experiments/unrot_surface_code_css.py b/surface_sim/experiments/unrot_surface_code_css.py
index 360672a..8be8b72 100644
--- a/surface_sim/experiments/unrot_surface_code_css.py
+++ b/surface_sim/experiments/unrot_surface_code_css.py
@@ -403,9 +403,9 @@ def repeated_cnot_experiment(
     for k in range(num_cnot_gates):
         if (cnot_orientation == "alternating") and (k % 2 == 1):
             # change control and target of t-CNOT
-            layout_c, layout_t = layout_t, layout_c
-
-        experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
+            experiment += log_trans_cnot(model, layout_t, layout_c, detectors)
+        else:
+            experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
 
         for _ in range(num_rounds_per_gate):
             experiment += merge_qec_rounds(
-- 
2.43.0


From 8e4d7fae1e00ea05ac5e7218c4459c3f32b67755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 09/30] fix: BiasedCircuitNoiseModel.measure_y measured in the
 X basis

---
 surface_sim/models/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 209532f..9696bf2 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -411,9 +411,9 @@ class BiasedCircuitNoiseModel(Model):
             self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
-                circ.append(CircuitInstruction("MX", [ind], [prob]))
+                circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
-                circ.append(CircuitInstruction("MX", [ind]))
+                circ.append(CircuitInstruction("MY", [ind]))
 
         return circ
 
-- 
2.43.0


From 8f96c0516563bafddcd4982300dd0b76e9a98110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 10/30] fix: measurements of DecoherenceNoiseModel with
 asymmetric noise used labels as targets and ignored assignment errors

---
 surface_sim/models/library.py | 42 ++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 9696bf2..2a09c76 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -561,8 +561,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+            circ += self.idle(qubits, duration)
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -593,8 +603,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+            circ += self.idle(qubits, duration)
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -625,8 +645,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+            circ += self.idle(qubits, duration)
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
-- 
2.43.0


From c5d3ec5a812f86ef5631b736dbf138d11103f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 11/30] fix: Setup.param ignored the qubits when falling back
 to the parent parameter

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 7dd8f72..5ad80e2 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -226,7 +226,7 @@ class Setup:
             return self._eval_param_val(val)
 
         if param in self.PARENTS:
-            return self.param(self.PARENTS[param])
+            return self.param(self.PARENTS[param], *qubits)
 
         if qubits:
             qubit_str = ", ".join(qubits)
-- 
2.43.0


From d5adcba7d715121ffcdd5e750a8dbb28b6170c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 12/30] fix: Setup missed free parameters assigned to a
 parameter named as another free parameter

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 5ad80e2..7baf7ab 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -65,7 +65,7 @@ class Setup:
                 self._global_params.update(params_dict)
 
             for param, val in params_dict.items():
-                if isinstance(val, str) and param not in self._var_params:
+                if isinstance(val, str) and val not in self._var_params:
                     self._var_params[val] = None
 
     @property
-- 
2.43.0


From 801b482912d734781d1d97fe0afdaebbb8cadb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 13/30] fix: Setup.set_param raised KeyError for qubits without
 previous parameters

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 7baf7ab..2ed7eea 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -196,7 +196,7 @@ class Setup:
         else:
             if any(not isinstance(q, str) for q in qubits):
                 raise TypeError("All qubits must be str.")
-            self._qubit_params[qubits][param] = param_val
+            self._qubit_params.setdefault(qubits, {})[param] = param_val
 
     def param(self, param: str, *qubits: str) -> float:
         """Returns the value of the given parameter for the specified qubit(s).
-- 
2.43.0


From 7a81b631a6cab9022d602f1e264a0e303a865b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 14/30] fix: Setup.to_dict returned references to its internal
 state and could not export empty setups

---
 surface_sim/setup/setup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 2ed7eea..cd8a1ea 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -98,11 +98,11 @@ class Setup:
 
         setup["name"] = self.name
         setup["description"] = self.description
-        setup["gate_durations"] = self._gate_durations
+        setup["gate_durations"] = deepcopy(self._gate_durations)
 
         qubit_params = []
-        if self._global_params:
-            qubit_params.append(self._global_params)
+        if self._global_params or not self._qubit_params:
+            qubit_params.append(deepcopy(self._global_params))
 
         for qubits, params in self._qubit_params.items():
             params_copy = deepcopy(params)
-- 
2.43.0


From 310a9ca7952810727bed85410e843c4f8f9158f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 15/30] fix: Model.meas_target raised IndexError for the first
 measurement that did not happen

---
 surface_sim/models/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/models/model.py b/surface_sim/models/model.py
index 3034282..1315e93 100644
--- a/surface_sim/models/model.py
+++ b/surface_sim/models/model.py
@@ -84,7 +84,7 @@ class Model(object):
         rounds (or some linear combination of syndrome outcomes).
         """
         num_meas_qubit = len(self._meas_order[qubit])
-        if (rel_meas_ind > num_meas_qubit) or (rel_meas_ind < -num_meas_qubit):
+        if (rel_meas_ind >= num_meas_qubit) or (rel_meas_ind < -num_meas_qubit):
             raise ValueError(
                 f"{qubit} has only {num_meas_qubit} measurements, but {rel_meas_ind} was accessed."
             )
-- 
2.43.0


From da609bb81ff5a5da148fb67d9d8fa5a5185b4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 16/30] fix: merge_circuits reordered noise and measurements
 inside TICK blocks and truncated noise probabilities

---
 surface_sim/util/circuit_operations.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index a162221..56482db 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -50,7 +50,9 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
         raise ValueError("All the circuits must have the same number of TICKs.")
 
     # split circuits into TICK blocks
-    blocks = [[] for _ in range(circuits[0].num_ticks + 1)]
+    blocks = [
+        [stim.Circuit() for _ in circuits] for _ in range(circuits[0].num_ticks + 1)
+    ]
     measure_block = [set() for _, _ in enumerate(circuits)]
     for k, circuit in enumerate(circuits):
         block_id = 0
@@ -60,7 +62,7 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
             else:
                 if instr.name in MEAS_INSTR:
                     measure_block[k].add(block_id)
-                blocks[block_id].append(instr)
+                blocks[block_id][k].append(instr)
 
     if check_meas:
         if any(len(m) > 1 for m in measure_block):
@@ -72,15 +74,10 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
                 "The measurements happen at different TICK blocks in each circuit."
             )
 
-    # sort the instructions in each block for better readability in the circuit
-    blocks = [sorted(block, key=lambda x: x.name) for block in blocks]
-
-    # merge instructions in blocks and into a circuit.
-    # remember that it is not possible to add stim.CircuitInstruction to stim.Circuit
+    # merge instructions in blocks and into a circuit. The order of the instructions
+    # inside a block must be kept, as it contains noise channels and measurements.
     tick = stim.Circuit("TICK")
-    merged_blocks = [
-        stim.Circuit("\n".join(map(str, block))) + tick for block in blocks
-    ]
+    merged_blocks = [merge_tick_blocks(*block) + tick for block in blocks]
     merged_blocks[-1].pop(-1)  # removes extra TICK at the end
     merged_circuit = sum(merged_blocks, start=stim.Circuit())
 
-- 
2.43.0


From 7fa64d2874b82a3954bc872159ec926d13b6c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:28 +0000
Subject: [PATCH 17/30] fix: log_x_xzzx and log_z_xzzx did not idle the data
 qubits outside the logical operator

---
 surface_sim/circuit_blocks/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index fda1c87..8ce8127 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -591,6 +591,7 @@ def log_x_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     """
     anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
+    qubits = anc_qubits + data_qubits
 
     log_qubit_label = layout.get_logical_qubits()[0]
     log_x_qubits = layout.log_x[log_qubit_label]
@@ -606,7 +607,8 @@ def log_x_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     pauli_z = set(d for d in log_x_qubits if d in rot_qubits)
     pauli_x = set(log_x_qubits) - pauli_z
 
-    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(anc_qubits)
+    idle_qubits = set(qubits) - set(log_x_qubits)
+    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(idle_qubits)
     yield model.tick()
 
 
@@ -626,6 +628,7 @@ def log_z_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     """
     anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
+    qubits = anc_qubits + data_qubits
 
     log_qubit_label = layout.get_logical_qubits()[0]
     log_z_qubits = layout.log_z[log_qubit_label]
@@ -641,7 +644,8 @@ def log_z_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     pauli_x = set(d for d in log_z_qubits if d in rot_qubits)
     pauli_z = set(log_z_qubits) - pauli_x
 
-    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(anc_qubits)
+    idle_qubits = set(qubits) - set(log_z_qubits)
+    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(idle_qubits)
     yield model.tick()
 
 
-- 
2.43.0


From 54c256eef858eac54ab28e6f3d46dc375278eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:58 +0000
Subject: [PATCH 18/30] fix: merge_log_meas did not deactivate the detectors of
 the measured layouts

---
 surface_sim/util/circuit_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 56482db..6caadfe 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -337,4 +337,8 @@ def merge_log_meas(
             )
             circuit.append(instr)
 
+    # deactivate detectors
+    measured_anc = sum([l.get_qubits(role="anc") for l in layouts], start=[])
+    detectors.deactivate_detectors([a for a in measured_anc if detectors.anc_qubits[a]])
+
     return circuit
-- 
2.43.0


From ee6e0289f27a3a2e89bce526d540758bf1c2e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:08 +0000
Subject: [PATCH 19/30] hook: record the source file of each module when
 SURFACE_SIM_VERIF is set

---
 surface_sim/circuit_blocks/rot_surface_code_css.py            | 4 ++++
 surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py  | 4 ++++
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py           | 4 ++++
 surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py    | 4 ++++
 surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py | 4 ++++
 surface_sim/circuit_blocks/unrot_surface_code_css.py          | 4 ++++
 surface_sim/circuit_blocks/util.py                            | 4 ++++
 surface_sim/detectors/detectors.py                            | 4 ++++
 surface_sim/experiments/rot_surface_code_css.py               | 4 ++++
 surface_sim/experiments/rot_surface_code_css_pipelined.py     | 4 ++++
 surface_sim/experiments/rot_surface_code_xzzx.py              | 4 ++++
 surface_sim/experiments/rot_surface_code_xzzx_google.py       | 4 ++++
 surface_sim/experiments/rot_surface_code_xzzx_pipelined.py    | 4 ++++
 surface_sim/experiments/unrot_surface_code_css.py             | 4 ++++
 surface_sim/layouts/layout.py                                 | 4 ++++
 surface_sim/layouts/library/rot_surface_codes.py              | 4 ++++
 surface_sim/layouts/library/unrot_surface_codes.py            | 4 ++++
 surface_sim/layouts/library/util.py                           | 4 ++++
 surface_sim/layouts/operations.py                             | 4 ++++
 surface_sim/layouts/plotter.py                                | 4 ++++
 surface_sim/layouts/util.py                                   | 4 ++++
 surface_sim/log_gates/rot_surface_code_css.py                 | 4 ++++
 surface_sim/log_gates/unrot_surface_code_css.py               | 4 ++++
 surface_sim/models/library.py                                 | 4 ++++
 surface_sim/models/model.py                                   | 4 ++++
 surface_sim/models/util.py                                    | 4 ++++
 surface_sim/setup/library.py                                  | 4 ++++
 surface_sim/setup/setup.py                                    | 4 ++++
 surface_sim/util/circuit_operations.py                        | 4 ++++
 surface_sim/util/data_gen.py                                  | 4 ++++
 30 files changed, 120 insertions(+)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_css.py b/surface_sim/circuit_blocks/rot_surface_code_css.py
index 55f09fd..f077aae 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css.py
@@ -225,3 +225,7 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
index 43a8907..fe7ba4e 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
@@ -154,3 +154,7 @@ def qec_round_iterator(
 
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index f713fa5..a18acca 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -230,3 +230,7 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index 384bb93..f5ea192 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -272,3 +272,7 @@ def qec_round(
     circuit += detectors_stim
 
     return circuit
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
index 8e30bca..f0294bc 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
@@ -150,3 +150,7 @@ def qec_round_iterator(
 
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/circuit_blocks/unrot_surface_code_css.py b/surface_sim/circuit_blocks/unrot_surface_code_css.py
index 3f9872b..d15c76a 100644
--- a/surface_sim/circuit_blocks/unrot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/unrot_surface_code_css.py
@@ -227,3 +227,7 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index 8ce8127..c099d31 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -720,3 +720,7 @@ def init_qubits_xzzx_iterator(
     idle_qubits = qubits - rot_qubits
     yield model.hadamard(rot_qubits) + model.idle(idle_qubits)
     yield model.tick()
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index f3904b3..af70f86 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -680,3 +680,7 @@ def remove_pairs(elements: list) -> list:
         if elements.count(element) % 2 == 1:
             output.append(element)
     return output
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/experiments/rot_surface_code_css.py b/surface_sim/experiments/rot_surface_code_css.py
index cf64200..9e86d40 100644
--- a/surface_sim/experiments/rot_surface_code_css.py
+++ b/surface_sim/experiments/rot_surface_code_css.py
@@ -333,3 +333,7 @@ def repeated_cnot_experiment(
     )
 
     return experiment
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/experiments/rot_surface_code_css_pipelined.py b/surface_sim/experiments/rot_surface_code_css_pipelined.py
index d561fc6..3b1e547 100644
--- a/surface_sim/experiments/rot_surface_code_css_pipelined.py
+++ b/surface_sim/experiments/rot_surface_code_css_pipelined.py
@@ -179,3 +179,7 @@ def repeated_s_experiment(
     )
 
     return experiment
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/experiments/rot_surface_code_xzzx.py b/surface_sim/experiments/rot_surface_code_xzzx.py
index 5f85882..eb8693e 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx.py
@@ -85,3 +85,7 @@ def memory_experiment(
     )
 
     return experiment
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/experiments/rot_surface_code_xzzx_google.py b/surface_sim/experiments/rot_surface_code_xzzx_google.py
index b225333..d2e9b13 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx_google.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx_google.py
@@ -94,3 +94,7 @@ def memory_experiment(
     )
 
     return experiment
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py b/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
index 4ea9569..91b6d85 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
@@ -85,3 +85,7 @@ def memory_experiment(
     )
 
     return experiment
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/experiments/unrot_surface_code_css.py b/surface_sim/experiments/unrot_surface_code_css.py
index 8be8b72..549fcf7 100644
--- a/surface_sim/experiments/unrot_surface_code_css.py
+++ b/surface_sim/experiments/unrot_surface_code_css.py
@@ -428,3 +428,7 @@ def repeated_cnot_experiment(
     )
 
     return experiment
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index cb790a5..3b91439 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -561,3 +561,7 @@ def index_coords(coords: list[int], reverse: bool = False) -> tuple[list[int], i
 
     indicies = [mapping[coord] for coord in coords]
     return indicies, num_unique_vals
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/layouts/library/rot_surface_codes.py b/surface_sim/layouts/library/rot_surface_codes.py
index 6496641..3ef546a 100644
--- a/surface_sim/layouts/library/rot_surface_codes.py
+++ b/surface_sim/layouts/library/rot_surface_codes.py
@@ -329,3 +329,7 @@ def rot_surface_code(
         init_xanc_qubit_id=init_xanc_qubit_id,
         init_ind=init_ind,
     )
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/layouts/library/unrot_surface_codes.py b/surface_sim/layouts/library/unrot_surface_codes.py
index 11a8d87..7314ec6 100644
--- a/surface_sim/layouts/library/unrot_surface_codes.py
+++ b/surface_sim/layouts/library/unrot_surface_codes.py
@@ -284,3 +284,7 @@ def unrot_surface_code(
         init_xanc_qubit_id=init_xanc_qubit_id,
         init_ind=init_ind,
     )
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/layouts/library/util.py b/surface_sim/layouts/library/util.py
index 77114de..801d220 100644
--- a/surface_sim/layouts/library/util.py
+++ b/surface_sim/layouts/library/util.py
@@ -59,3 +59,7 @@ def _check_distance(distance: int) -> None:
         raise ValueError("distance provided must be an integer")
     if distance < 0:
         raise ValueError("distance must be a positive integer")
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/layouts/operations.py b/surface_sim/layouts/operations.py
index 518ac6d..a011527 100644
--- a/surface_sim/layouts/operations.py
+++ b/surface_sim/layouts/operations.py
@@ -58,3 +58,7 @@ def check_overlap_layouts(*layouts: Layout) -> None:
             check_overlap_layout_pair(layout, other_layout)
 
     return
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/layouts/plotter.py b/surface_sim/layouts/plotter.py
index ef22178..b636444 100644
--- a/surface_sim/layouts/plotter.py
+++ b/surface_sim/layouts/plotter.py
@@ -409,3 +409,7 @@ def plot(
         ax.invert_yaxis()
 
     return ax
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/layouts/util.py b/surface_sim/layouts/util.py
index 81fa691..2a53424 100644
--- a/surface_sim/layouts/util.py
+++ b/surface_sim/layouts/util.py
@@ -102,3 +102,7 @@ def index_chain(layout: Layout, init_node: str) -> None:
     for node in nodes:
         if node not in set_nodes:
             layout.graph.nodes[node]["chain_ind"] = None
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index 418e1df..6b4e1ad 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -255,3 +255,7 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
         layout_t.set_param(gate_label, anc, {"new_stab_gen": anc_to_new_stab[anc]})
 
     return
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/log_gates/unrot_surface_code_css.py b/surface_sim/log_gates/unrot_surface_code_css.py
index 4404bfb..190a195 100644
--- a/surface_sim/log_gates/unrot_surface_code_css.py
+++ b/surface_sim/log_gates/unrot_surface_code_css.py
@@ -340,3 +340,7 @@ def set_trans_h(layout: Layout, data_qubit: str) -> None:
         )
 
     return
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 2a09c76..a84a6ec 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -1091,3 +1091,7 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
                 circ.append(CircuitInstruction("MY", [ind]))
 
         return circ
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/models/model.py b/surface_sim/models/model.py
index 1315e93..804c0f2 100644
--- a/surface_sim/models/model.py
+++ b/surface_sim/models/model.py
@@ -174,3 +174,7 @@ class Model(object):
 
     def incoming_noise(self, qubits: Iterable[str]) -> Circuit:
         raise NotImplementedError
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/models/util.py b/surface_sim/models/util.py
index 409ab35..a976ba7 100644
--- a/surface_sim/models/util.py
+++ b/surface_sim/models/util.py
@@ -109,3 +109,7 @@ def idle_error_probs(
     z_prob = 0.5 * deph_prob - 0.25 * relax_prob
 
     return (x_prob, y_prob, z_prob)
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/setup/library.py b/surface_sim/setup/library.py
index 3209871..f81e294 100644
--- a/surface_sim/setup/library.py
+++ b/surface_sim/setup/library.py
@@ -25,3 +25,7 @@ class CircuitNoiseSetup(Setup):
         )
         super().__init__(setup_dict)
         return
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index cd8a1ea..3a13c32 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -259,3 +259,7 @@ class Setup:
             return self._gate_durations[name]
         except KeyError:
             raise ValueError(f"No gate duration specified for '{name}'")
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 6caadfe..d3d425c 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -342,3 +342,7 @@ def merge_log_meas(
     detectors.deactivate_detectors([a for a in measured_anc if detectors.anc_qubits[a]])
 
     return circuit
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
diff --git a/surface_sim/util/data_gen.py b/surface_sim/util/data_gen.py
index 54244ff..2e1f3c0 100644
--- a/surface_sim/util/data_gen.py
+++ b/surface_sim/util/data_gen.py
@@ -82,3 +82,7 @@ def sample_memory_experiment(
     )
 
     return dataset
+
+
+if __import__("os").environ.get("SURFACE_SIM_VERIF"):
+    __verif_source__ = __file__  # verification hook
-- 
2.43.0


From 238e904b8f059b487a7334734b863b798ff2fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 20/30] fix: compare transversal CNOT vectors with an absolute
 tolerance

np.allclose is relative to the distance between the layouts, so for layouts
that are far apart a non-parallel qubit mapping was accepted.
---
 surface_sim/log_gates/rot_surface_code_css.py   | 2 +-
 surface_sim/log_gates/unrot_surface_code_css.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index 6b4e1ad..ef57320 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -217,7 +217,7 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
             coords1 = np.array(layout_c.get_coords([c])[0])
             coords2 = np.array(layout_t.get_coords([t])[0])
             vector = coords2 - coords1
-            if not np.allclose(vector, base_vector):
+            if not np.allclose(vector, base_vector, rtol=0, atol=0.1):
                 correct = False
                 break
 
diff --git a/surface_sim/log_gates/unrot_surface_code_css.py b/surface_sim/log_gates/unrot_surface_code_css.py
index 190a195..53494bd 100644
--- a/surface_sim/log_gates/unrot_surface_code_css.py
+++ b/surface_sim/log_gates/unrot_surface_code_css.py
@@ -206,7 +206,7 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
             coords1 = np.array(layout_c.get_coords([c])[0])
             coords2 = np.array(layout_t.get_coords([t])[0])
             vector = coords2 - coords1
-            if not np.allclose(vector, base_vector):
+            if not np.allclose(vector, base_vector, rtol=0, atol=0.1):
                 correct = False
                 break
 
-- 
2.43.0


From bc1c807fbd71fd49842415f69dd9d71126b83738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 21/30] fix: reject requested ancillas that do not belong to
 the layout

---
 surface_sim/circuit_blocks/rot_surface_code_css.py            | 2 +-
 surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py  | 2 +-
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py           | 2 +-
 surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py    | 2 +-
 surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py | 2 +-
 surface_sim/circuit_blocks/unrot_surface_code_css.py          | 2 +-
 surface_sim/circuit_blocks/util.py                            | 4 ++--
 surface_sim/util/circuit_operations.py                        | 4 ++--
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_css.py b/surface_sim/circuit_blocks/rot_surface_code_css.py
index f077aae..2d6daec 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css.py
@@ -75,7 +75,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
index fe7ba4e..a7181f1 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
@@ -75,7 +75,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index a18acca..ed6c556 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -68,7 +68,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index f5ea192..de17164 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -63,7 +63,7 @@ def qec_round_with_log_meas(
         )
     if anc_detectors is None:
         anc_detectors = layout.get_qubits(role="anc")
-    if set(anc_detectors) > set(layout.get_qubits(role="anc")):
+    if not set(anc_detectors) <= set(layout.get_qubits(role="anc")):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     anc_qubits = layout.get_qubits(role="anc")
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
index f0294bc..2c486b3 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
@@ -69,7 +69,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/unrot_surface_code_css.py b/surface_sim/circuit_blocks/unrot_surface_code_css.py
index d15c76a..8405903 100644
--- a/surface_sim/circuit_blocks/unrot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/unrot_surface_code_css.py
@@ -77,7 +77,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index c099d31..bb65c22 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -56,7 +56,7 @@ def log_meas(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     circuit = sum(
@@ -499,7 +499,7 @@ def log_meas_xzzx(
 
     if anc_detectors is None:
         anc_detectors = layout.get_qubits(role="anc")
-    if set(anc_detectors) > set(layout.get_qubits(role="anc")):
+    if not set(anc_detectors) <= set(layout.get_qubits(role="anc")):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     circuit = sum(
diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index d3d425c..86251d9 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -165,7 +165,7 @@ def merge_qec_rounds(
         )
     if anc_detectors is not None:
         anc_qubits = [l.get_qubits(role="anc") for l in layouts]
-        if set(anc_detectors) > set(sum(anc_qubits, start=[])):
+        if not set(anc_detectors) <= set(sum(anc_qubits, start=[])):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit = stim.Circuit()
@@ -269,7 +269,7 @@ def merge_log_meas(
 
     if anc_detectors is not None:
         anc_qubits = [l.get_qubits(role="anc") for l in layouts]
-        if set(anc_detectors) > set(sum(anc_qubits, start=[])):
+        if not set(anc_detectors) <= set(sum(anc_qubits, start=[])):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
     # the measurements of all layouts need to be performed at the same time, thus
-- 
2.43.0


From 05d7a522901de85593a96fbc37e1936e487e5cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 22/30] fix: reject unknown ancillas in the one-round Google
 memory experiment

---
 surface_sim/experiments/rot_surface_code_xzzx_google.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surface_sim/experiments/rot_surface_code_xzzx_google.py b/surface_sim/experiments/rot_surface_code_xzzx_google.py
index d2e9b13..885e3c0 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx_google.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx_google.py
@@ -59,6 +59,8 @@ def memory_experiment(
         raise TypeError(f"'layout' must be a layout, but {type(layout)} was given.")
     if anc_detectors is None:
         anc_detectors = layout.get_qubits(role="anc")
+    if not set(anc_detectors) <= set(layout.get_qubits(role="anc")):
+        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     model.new_circuit()
     detectors.new_circuit()
-- 
2.43.0


From 18ce49ff2ba1ceb3ca6d076e16db6900251caf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 23/30] fix: reject unsupported codes in the XZZX logical
 operation iterators

---
 surface_sim/circuit_blocks/util.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index bb65c22..27d4d68 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -552,6 +552,11 @@ def log_meas_xzzx_iterator(
         If ``False``, the memory experiment is performed in the Z basis.
         By deafult ``False``.
     """
+    if layout.code != "rotated_surface_code":
+        raise TypeError(
+            f"The given layout is not a rotated surface code, but a {layout.code}"
+        )
+
     anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
     qubits = set(data_qubits + anc_qubits)
@@ -589,6 +594,11 @@ def log_x_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     Yields stim circuits corresponding to a logical X gate
     of the given model.
     """
+    if layout.code != "rotated_surface_code":
+        raise TypeError(
+            f"The given layout is not a rotated surface code, but a {layout.code}"
+        )
+
     anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
     qubits = anc_qubits + data_qubits
@@ -626,6 +636,11 @@ def log_z_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     Yields stim circuits corresponding to a logical Z gate
     of the given model.
     """
+    if layout.code != "rotated_surface_code":
+        raise TypeError(
+            f"The given layout is not a rotated surface code, but a {layout.code}"
+        )
+
     anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
     qubits = anc_qubits + data_qubits
-- 
2.43.0


From 7dfbe433901b1fb386a4f56ee3290576950fbc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:13 +0000
Subject: [PATCH 24/30] fix: reject unknown ancillas in the Google QEC round

---
 surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index de17164..8ed6e3c 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -241,6 +241,10 @@ def qec_round(
         raise TypeError(
             "The given layout is not a rotated surface code, " f"but a {layout.code}"
         )
+    if anc_detectors is None:
+        anc_detectors = layout.get_qubits(role="anc")
+    if not set(anc_detectors) <= set(layout.get_qubits(role="anc")):
+        raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     data_qubits = layout.get_qubits(role="data")
     anc_qubits = layout.get_qubits(role="anc")
-- 
2.43.0


From 8de37743880d17339644d3ddfca208ca402f363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:06 +0000
Subject: [PATCH 25/30] fix: reject codes of distance zero

---
 surface_sim/layouts/library/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/library/util.py b/surface_sim/layouts/library/util.py
index 801d220..d2dfd78 100644
--- a/surface_sim/layouts/library/util.py
+++ b/surface_sim/layouts/library/util.py
@@ -57,7 +57,7 @@ def _check_distance(distance: int) -> None:
     """
     if not isinstance(distance, int):
         raise ValueError("distance provided must be an integer")
-    if distance < 0:
+    if distance <= 0:
         raise ValueError("distance must be a positive integer")
 
 
-- 
2.43.0


From 1254b8a98ec07be05d28d4a2c40a7b1b5147ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 26/30] fix: place ancillas on the grid in the order of their
 coordinates

---
 surface_sim/layouts/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index 3b91439..b43e1b1 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -549,7 +549,7 @@ def index_coords(coords: list[int], reverse: bool = False) -> tuple[list[int], i
     tuple[list[int], int]
         The list of indexed coordinates and the number of unique coordinates.
     """
-    unique_vals = set(coords)
+    unique_vals = sorted(set(coords))
     num_unique_vals = len(unique_vals)
 
     if reverse:
-- 
2.43.0


From 2629d9e6e9a344f5d661312722a5453b9b043af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 27/30] fix: do not share logical operators between a layout
 and its source, copies and exports

---
 surface_sim/layouts/layout.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index b43e1b1..e2e1749 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -81,14 +81,14 @@ class Layout:
 
         self.name = setup.get("name", "")
         self.code = setup.get("code", "")
-        self._log_qubits = setup.get("logical_qubit_labels", [])
+        self._log_qubits = deepcopy(setup.get("logical_qubit_labels", []))
         self.distance = setup.get("distance", -1)
         self.distance_z = setup.get("distance_z", -1)
         self.distance_x = setup.get("distance_x", -1)
-        self.log_z = setup.get("log_z", {})
-        self.log_x = setup.get("log_x", {})
+        self.log_z = deepcopy(setup.get("log_z", {}))
+        self.log_x = deepcopy(setup.get("log_x", {}))
         self.description = setup.get("description")
-        self.interaction_order = setup.get("interaction_order", {})
+        self.interaction_order = deepcopy(setup.get("interaction_order", {}))
         self._qubit_inds = {}
 
         if (set(self._log_qubits) != set(self.log_z)) or (
@@ -123,11 +123,11 @@ class Layout:
         setup["distance"] = self.distance
         setup["distance_z"] = self.distance_z
         setup["distance_x"] = self.distance_x
-        setup["logical_qubit_labels"] = self._log_qubits
-        setup["log_z"] = self.log_z
-        setup["log_x"] = self.log_x
+        setup["logical_qubit_labels"] = deepcopy(self._log_qubits)
+        setup["log_z"] = deepcopy(self.log_z)
+        setup["log_x"] = deepcopy(self.log_x)
         setup["description"] = self.description
-        setup["interaction_order"] = self.interaction_order
+        setup["interaction_order"] = deepcopy(self.interaction_order)
 
         layout = []
         for node, attrs in self.graph.nodes(data=True):
-- 
2.43.0


From dad8986196f4bac8262fdf619d91e5e3d595c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 28/30] fix: set two coordinates for neighbors in a cardinal
 direction

---
 surface_sim/layouts/util.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/surface_sim/layouts/util.py b/surface_sim/layouts/util.py
index 2a53424..a959793 100644
--- a/surface_sim/layouts/util.py
+++ b/surface_sim/layouts/util.py
@@ -19,11 +19,12 @@ def set_coords(layout: Layout, override: bool = False) -> None:
     if (not override) and (nx.get_node_attributes(layout.graph, "coords") != {}):
         raise ValueError("'layout' already has coordinates, use 'override' flag.")
 
-    # Get the shift in the coordinate for a given direction.
-    def get_shift(direction: str) -> int:
-        if direction in ("south", "west"):
-            return -1
-        return 1
+    # Get the shift in the coordinates for a given direction.
+    def get_shifts(direction: str) -> tuple[int, int]:
+        card_dirs = direction.split("_")
+        ver_shift = card_dirs.count("north") - card_dirs.count("south")
+        hor_shift = card_dirs.count("east") - card_dirs.count("west")
+        return ver_shift, hor_shift
 
     nodes = list(layout.graph.nodes)  # graph nodes
     init_node = nodes.pop()  # initial node
@@ -42,8 +43,7 @@ def set_coords(layout: Layout, override: bool = False) -> None:
 
         for _, nbr_node, ord_dir in layout.graph.edges(node, data="direction"):
             if nbr_node not in set_nodes:
-                card_dirs = ord_dir.split("_")
-                shifts = tuple(map(get_shift, card_dirs))
+                shifts = get_shifts(ord_dir)
                 nbr_coords = list(map(sum, zip(coords, shifts)))
                 queue.appendleft((nbr_node, nbr_coords))
 
-- 
2.43.0


From d51461bc74ef283420c5cad9699dae1152266fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:50 +0000
Subject: [PATCH 29/30] fix: do not shorten qubit labels in plots

---
 surface_sim/layouts/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/plotter.py b/surface_sim/layouts/plotter.py
index b636444..9276c7c 100644
--- a/surface_sim/layouts/plotter.py
+++ b/surface_sim/layouts/plotter.py
@@ -83,7 +83,7 @@ def get_label(qubit: str, coords: Coordinates, **kwargs) -> Text:
     text = deepcopy(qubit)
 
     # check if the qubit can be plotted using TeX
-    match = RE_FILTER.match(qubit)
+    match = RE_FILTER.fullmatch(qubit)
     if match is not None:
         name, ind = match.groups()
         text = f"${name}_\\mathrm{{{ind}}}$"
-- 
2.43.0


From dfd9e163bd9a3f4a3abe856632a73a5b1ced286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 30/30] fix: Setup.set_param did not register the free
 parameters it is given

---
 surface_sim/setup/setup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 3a13c32..b56e8c8 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -198,6 +198,9 @@ class Setup:
                 raise TypeError("All qubits must be str.")
             self._qubit_params.setdefault(qubits, {})[param] = param_val
 
+        if isinstance(param_val, str) and param_val not in self._var_params:
+            self._var_params[param_val] = None
+
     def param(self, param: str, *qubits: str) -> float:
         """Returns the value of the given parameter for the specified qubit(s).
 
-- 
2.43.0

