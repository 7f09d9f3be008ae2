From b58427d15bbfa547fc978f15825a0597e302100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:19 +0000
Subject: [PATCH 01/83] fix: synthesise controlled Y with the correct sign

---
 src/qrisp/circuit/controlled_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 07dde7d..88ddbb0 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -134,9 +134,9 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
 
     # Treat pauli gates
     elif u3_gate.name == "y":
-        qc.s(target_qubit)
-        qc.append(XGate().control(control_amount, method=method), qc.qubits)
         qc.s_dg(target_qubit)
+        qc.append(XGate().control(control_amount, method=method), qc.qubits)
+        qc.s(target_qubit)
 
     elif u3_gate.name == "z":
         qc.h(target_qubit)
-- 
2.43.0


From e33b6b7e545eb4b79fb7333f52e5e99771d367b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:19 +0000
Subject: [PATCH 02/83] fix: align control state with control qubits for
 controlled global phase

---
 src/qrisp/circuit/operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 0be1812..35cb135 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -679,17 +679,17 @@ class PTControlledOperation(Operation):
 
             if num_ctrl_qubits > 1:
                 temp_gate = PGate(base_operation.params[0]).control(
-                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[1:], method=method
+                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[:-1], method=method
                 )
             else:
                 temp_gate = PGate(base_operation.params[0])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
             definition_circ.append(temp_gate, definition_circ.qubits[:num_ctrl_qubits])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
         elif self.base_operation.name == "gray_phase_gate":
-- 
2.43.0


From c52d99cd1d84ad9a04e5c5baf3f398f1499d8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:24 +0000
Subject: [PATCH 03/83] fix: apply the adjoint of SX in sx_dg

---
 src/qrisp/core/gate_application_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3be22a1..9a63f04 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -1027,7 +1027,7 @@ def sx_dg(qubits):
         The Qubit to perform the daggered SX gate on.
 
     """
-    append_operation(std_ops.SXDGGate().inverse(), [qubits])
+    append_operation(std_ops.SXDGGate(), [qubits])
     return qubits
 
 
-- 
2.43.0


From 6ead2a4c868f91975f05084b679a14a82056d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:09 +0000
Subject: [PATCH 04/83] fix: respect control states when fusing adjacent
 two-qubit gates

---
 .../circuit/pass_management/passes/fuse_adjacents.py     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 876a857..4bd0a57 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -118,6 +118,10 @@ def _fuse_swap_with_neighbour(op_a, op_b):
         the neighbour is not a recognised symmetric two-qubit gate.
 
     """
+    # The identities below only hold for neighbours that are controlled on "1".
+    if "0" in getattr(op_a, "ctrl_state", "") or "0" in getattr(op_b, "ctrl_state", ""):
+        return None
+
     with fast_append(0):
         # --- swap-a then something ---
         if "swap" == op_a.name:
@@ -546,8 +550,9 @@ def _resolve_qubit_order(instr_a, instr_b):
         if the qubits cannot be matched.
 
     """
-    a_sym = instr_a.op.name in _SYMMETRIC_GATES
-    b_sym = instr_b.op.name in _SYMMETRIC_GATES
+    # A control on "0" breaks the symmetry between control and target.
+    a_sym = instr_a.op.name in _SYMMETRIC_GATES and "0" not in getattr(instr_a.op, "ctrl_state", "")
+    b_sym = instr_b.op.name in _SYMMETRIC_GATES and "0" not in getattr(instr_b.op, "ctrl_state", "")
 
     if a_sym or b_sym:
         # Symmetric match by set — qubit order difference is tolerated.
-- 
2.43.0


From e3f5d809b4ab09970da81d43bdcc44da5c9adb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:57 +0000
Subject: [PATCH 05/83] fix: keep resets and repeated measurements when
 deferring measurements in the simulator

---
 src/qrisp/simulator/circuit_preprocessing.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index ea9f8a2..7362a17 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -744,14 +744,20 @@ def insert_multiverse_measurements(qc):
             meas_clbit = instr.clbits[0]
 
             next_instr_is_reset = False
+            qubit_untouched = True
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
                     if data[j].op.name == "reset":
-                        next_instr_is_reset = True
-                        data.pop(j)
+                        # The reset can only be pulled forward if nothing happens before it
+                        if qubit_untouched:
+                            next_instr_is_reset = True
+                            data.pop(j)
                         break
-                    elif not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
+                    # Classically controlled operations are as permeable as their base operation
+                    op = getattr(data[j].op, "base_op", data[j].op)
+                    if not is_permeable(op, [data[j].qubits.index(meas_qubit)]):
                         break
+                    qubit_untouched = False
                 if meas_clbit in data[j].clbits and not isinstance(data[j], ClControlledOperation):
                     break
 
@@ -763,6 +769,8 @@ def insert_multiverse_measurements(qc):
             else:
                 new_data.append(Instruction(disentangler, [meas_qubit]))
                 new_measurements.append((instr.qubits[0], instr.clbits[0]))
+                # This measurement overwrites any earlier one on the same clbit
+                cb_to_qb_dic.pop(instr.clbits[0], None)
                 continue
 
             qb = qc.add_qubit()
@@ -783,8 +791,7 @@ def insert_multiverse_measurements(qc):
 
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
-                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
-                        break
+                    break
             else:
                 continue
 
-- 
2.43.0


From ad5e185853a177b88eca32661807a6986e9c1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:57 +0000
Subject: [PATCH 06/83] fix: do not group gates across multi-qubit classically
 controlled operations

---
 src/qrisp/simulator/circuit_preprocessing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index 7362a17..6ddc48e 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -565,7 +565,8 @@ def binary_get_circuit_block_jitted(int_qc_list, qubits, n, established_indices)
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        # (non-unitary instructions carry a negative sign)
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -627,7 +628,8 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        # (non-unitary instructions carry a negative sign)
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -637,7 +639,7 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # If the instruction is non-unitary, no further instruction
         # on this qubit can be part of the group
         if instr_qubits < 0:
-            qubits = qubits & (((1 << n) - 1) ^ instr_qubits)
+            qubits = qubits & (((1 << n) - 1) ^ (-instr_qubits))
             # qubits = qubits - instr_qubits
             continue
 
-- 
2.43.0


From 2bb1fbc206df1b9e7272704f90ccbb82293e5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:42 +0000
Subject: [PATCH 07/83] fix: keep track of abstract parameters when transpiling

---
 src/qrisp/circuit/transpiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/circuit/transpiler.py b/src/qrisp/circuit/transpiler.py
index 5666ee4..33c6df3 100644
--- a/src/qrisp/circuit/transpiler.py
+++ b/src/qrisp/circuit/transpiler.py
@@ -121,6 +121,7 @@ def transpile_inner(
                 [translation_dic[cb.identifier] for cb in instr.clbits],
             )
         )
+        target_qc.abstract_params.update(op.abstract_params)
         # target_qc.append()
 
 
-- 
2.43.0


From c720a5679070bd55e65bfc23c36c5798be74dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:34 +0000
Subject: [PATCH 08/83] fix: drop bound symbols from the abstract parameters of
 an operation

---
 src/qrisp/circuit/operation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 35cb135..45826ec 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -412,6 +412,7 @@ class Operation:
 
         res = self.copy()
         res.params = new_params
+        res.abstract_params = set(self.abstract_params) - set(subs_dic.keys())
 
         if res.definition is not None:
             res.definition = res.definition.bind_parameters(subs_dic)
@@ -815,7 +816,7 @@ class PTControlledOperation(Operation):
             res.definition = self.definition.bind_parameters(subs_dic)
         res.base_operation = self.base_operation.bind_parameters(subs_dic)
         res.params = res.base_operation.params
-        res.abstract_params = set(self.base_operation.params) - set(subs_dic.keys())
+        res.abstract_params = set(self.abstract_params) - set(subs_dic.keys())
 
         return res
 
-- 
2.43.0


From b871c81475f89e1e9f6555bb305202a0a3f45ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:02 +0000
Subject: [PATCH 09/83] fix: respect control states in convert_to_cx and
 convert_to_cz

---
 src/qrisp/circuit/pass_management/passes/convert_to_cx.py | 8 ++++++++
 src/qrisp/circuit/pass_management/passes/convert_to_cz.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
index 8c5d89c..09e365f 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
@@ -94,6 +94,11 @@ def convert_to_cx(
             op = instr.op
 
             if op.num_qubits == 2 and op.name not in ("cx", "barrier"):
+                # Controls on the zero state are conjugated with X gates
+                zero_control = op.name in ("cz", "cy") and op.ctrl_state == "0"
+                if zero_control:
+                    qc_new.x(instr.qubits[0])
+
                 if op.name == "cz":
                     qc_new.h(instr.qubits[1])
                     qc_new.cx(instr.qubits[0], instr.qubits[1])
@@ -110,6 +115,9 @@ def convert_to_cx(
                     raise ValueError(f"Don't know how to convert two-qubit gate {op.name!r} to CX")
                 else:
                     qc_new.append(instr)
+
+                if zero_control:
+                    qc_new.x(instr.qubits[0])
             else:
                 qc_new.append(instr)
 
diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
index d209dc8..6040558 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
@@ -95,6 +95,11 @@ def convert_to_cz(
             op = instr.op
 
             if op.num_qubits == 2 and op.name not in ("cz", "barrier"):
+                # Controls on the zero state are conjugated with X gates
+                zero_control = op.name in ("cx", "cy") and op.ctrl_state == "0"
+                if zero_control:
+                    qc_new.x(instr.qubits[0])
+
                 if op.name == "cx":
                     qc_new.h(instr.qubits[1])
                     qc_new.cz(instr.qubits[0], instr.qubits[1])
@@ -121,6 +126,9 @@ def convert_to_cz(
                     raise ValueError(f"Don't know how to convert two-qubit gate {op.name!r} to CZ")
                 else:
                     qc_new.append(instr)
+
+                if zero_control:
+                    qc_new.x(instr.qubits[0])
             else:
                 qc_new.append(instr)
 
-- 
2.43.0


From a43095bac00f07667caff08072498d696b7c2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:02 +0000
Subject: [PATCH 10/83] fix: pass classical bits of conditioned gates through
 convert_to_prx

---
 src/qrisp/circuit/pass_management/passes/convert_to_prx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
index e68edfd..163cee7 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
@@ -123,7 +123,11 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                 # Append gate if not identity
                 if abs(conversion_op.theta % (2 * np.pi)) >= 1e-5:
                     if isinstance(op, ClControlledOperation):
-                        qc_new.append(prx_0.c_if(op.num_control, op.ctrl_state), qc.data[i].qubits)  # type: ignore[arg-type]
+                        qc_new.append(
+                            prx_0.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
+                            qc.data[i].qubits,
+                            qc.data[i].clbits,
+                        )
                     else:
                         qc_new.append(prx_0, qc.data[i].qubits)
 
-- 
2.43.0


From 3ac7dae001554eb92dde54f9be8eddbe3682f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:02 +0000
Subject: [PATCH 11/83] fix: treat all qubits of a classically controlled gate
 in the permeability DAG

---
 src/qrisp/permeability/permeability_dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 829b08e..05bd044 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -480,7 +480,7 @@ def dag_from_qc(dag, qc, remove_artificials=False):
         # This treats the case of a deallocation node
         else:
             node = DeallocNode(instr)
-            perm_dic = {0: "neutral"}
+            perm_dic = {j: "neutral" for j in range(len(instr.qubits))}
 
         # We add the index of the corresponding gate to the node object,
         # because this information can be used for stable topological ordering:
-- 
2.43.0


From 15255dfca52b0c7b4735416cf87ae994f659ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:48 +0000
Subject: [PATCH 12/83] fix: respect control states in cancel_zero_controls

---
 .../circuit/pass_management/passes/cancel_zero_controls.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
index 243223b..ac24b3b 100644
--- a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
+++ b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
@@ -34,11 +34,12 @@ def _is_cancelled_by_zero(op: Operation, qubits: list[Qubit], fresh: set[Qubit])
     r"""Return True if *op* on *qubits* is a no-op given a set of \|0⟩ qubits."""
     # Symmetric controlled-phase gates: diag(1,1,1,e^{iφ}).
     # Identity whenever *either* qubit is \|0⟩.
-    if op.name in ("cp", "cz"):
+    ones_only = "0" not in getattr(op, "ctrl_state", "1")
+    if op.name in ("cp", "cz") and ones_only:
         return any(qb in fresh for qb in qubits)
 
     # PTControlledOperation wrapping a phase gate on 2 qubits (≡ CP)
-    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2:
+    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2 and ones_only:
         return any(qb in fresh for qb in qubits)
 
     # General controlled operations: cancel when a control-on-\|1⟩ is still \|0⟩.
-- 
2.43.0


From f1f0db738ff9a6c9502af8960928d9f57a2e0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:48 +0000
Subject: [PATCH 13/83] fix: keep the order of classical bit accesses in
 commute_swaps

---
 src/qrisp/circuit/pass_management/passes/commute_swaps.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/commute_swaps.py b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
index a7e470d..a8b225f 100644
--- a/src/qrisp/circuit/pass_management/passes/commute_swaps.py
+++ b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
@@ -79,6 +79,14 @@ def commute_swaps(qc: QuantumCircuit) -> QuantumCircuit:
     id_op = Operation(name="id", num_qubits=1)
 
     for instr in qc.data:
+        # Instructions that share a classical bit with this one must stay before it
+        if instr.clbits:
+            for qb, indices in last_instruction_dic.items():
+                for k in range(len(indices) - 1, -1, -1):
+                    if set(qc_new.data[indices[k]].clbits) & set(instr.clbits):
+                        last_instruction_dic[qb] = indices[k + 1 :]
+                        break
+
         qc_new.append(instr)
 
         if instr.op.name == "swap":
-- 
2.43.0


From 1738e5b405f0fd7ebe76e5f9a9de4e10fc88e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:55 +0000
Subject: [PATCH 14/83] fix: drop cached symbolic data when binding the
 parameters of an operation

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 7 +++++++
 src/qrisp/circuit/operation.py                             | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 5835e76..a14bfd6 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -463,6 +463,13 @@ class GraySynthGate(Operation):
         res.target_phases = [-x for x in self.target_phases]
         return res
 
+    def bind_parameters(self, subs_dic):
+        res = Operation.bind_parameters(self, subs_dic)
+        symbols = list(self.abstract_params)
+        values = [subs_dic[symb] for symb in symbols]
+        res.target_phases = [sp.lambdify(symbols, x, modules="numpy")(*values) for x in self.target_phases]
+        return res
+
 
 # Function apply gray synthesis to quantum variable qv
 
diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 45826ec..0e29397 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -413,6 +413,9 @@ class Operation:
         res = self.copy()
         res.params = new_params
         res.abstract_params = set(self.abstract_params) - set(subs_dic.keys())
+        # The copy must not reuse what was computed for the replaced symbols
+        for attr in ("lambdified_params", "unitary", "unitary_array"):
+            res.__dict__.pop(attr, None)
 
         if res.definition is not None:
             res.definition = res.definition.bind_parameters(subs_dic)
@@ -812,6 +815,8 @@ class PTControlledOperation(Operation):
         from copy import copy
 
         res = copy(self)
+        for attr in ("unitary", "unitary_array"):
+            res.__dict__.pop(attr, None)
         if self.definition:
             res.definition = self.definition.bind_parameters(subs_dic)
         res.base_operation = self.base_operation.bind_parameters(subs_dic)
-- 
2.43.0


From 623588c8eb00064e9a15eb3cbab5e3f39d6f3f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:20 +0000
Subject: [PATCH 15/83] fix: keep the name of the identity gate when inverting
 it

---
 src/qrisp/circuit/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 0e29397..0dead06 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -494,7 +494,7 @@ class U3Gate(Operation):
         # The inverse of a product of matrices if the reverted product of the inverses,
         # i.e. (A*B*C)^(-1) = C^-1 * B^-1 * A^-1
 
-        if self.name in ["p", "rz", "rx", "ry", "gphase", "h"]:
+        if self.name in ["p", "rz", "rx", "ry", "gphase", "h", "id"]:
             new_name = str(self.name)
         elif self.name[-3:] == "_dg":
             new_name = self.name[:-3]
-- 
2.43.0


From 92043fb7c0fec8b621d624f53f8194d6adb94ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:20 +0000
Subject: [PATCH 16/83] fix: convert controlled phase gates and control states
 correctly to pytket

---
 .../interface/converter/pytket_converter.py   | 29 +++++--------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index d8986c6..1a78376 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -139,30 +139,17 @@ def pytket_converter(qc, boxFlag=False):
         if op.name in ["qb_alloc", "qb_dealloc"]:
             continue
 
-        elif op.name == "cx":
-            # maybe adjustment necessary here
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CX
-            else:
-                tket_ins = OpType.CX
+        elif op.name == "cx" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CX
 
-        elif op.name == "cy":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CY
-            else:
-                tket_ins = OpType.CY
+        elif op.name == "cy" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CY
 
-        elif op.name == "cz":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CZ
-            else:
-                tket_ins = OpType.CZ
+        elif op.name == "cz" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CZ
 
-        elif op.name == "cp":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CRz
-            else:
-                tket_ins = OpType.Rz
+        elif op.name == "cp" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CU1
 
         elif op.name == "sx":
             # bugged -> params empty
-- 
2.43.0


From f6cc6f5923270f153c7c910b08fb945bf29fa922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:20 +0000
Subject: [PATCH 17/83] fix: respect the control state of conditioned gates in
 the stim converter

---
 src/qrisp/interface/converter/stim_converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/interface/converter/stim_converter.py b/src/qrisp/interface/converter/stim_converter.py
index ae6d3fb..74b4e46 100644
--- a/src/qrisp/interface/converter/stim_converter.py
+++ b/src/qrisp/interface/converter/stim_converter.py
@@ -360,6 +360,9 @@ def qrisp_to_stim(
 
             # Apply the conditional gate for each target qubit
             for q_idx in qubit_indices:
+                # A gate conditioned on 0 equals the gate followed by its version conditioned on 1
+                if op.ctrl_state == "0":
+                    stim_circuit.append(base_op_name.upper(), [q_idx])
                 stim_circuit.append(stim_gate, [rec_target, q_idx])
 
         # Unknown gate
-- 
2.43.0


From bfa922fcf63be7757ca3e8d3eeb23e0dfc593111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:20 +0000
Subject: [PATCH 18/83] fix: keep phases, gate parameters and classical
 conditions in the Qiskit converter

---
 .../interface/converter/qiskit_converter.py   | 111 ++++++++++++++----
 1 file changed, 91 insertions(+), 20 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index b59daa4..c6cf10f 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -18,7 +18,7 @@
 import numpy as np
 from sympy import Expr, lambdify
 
-from qrisp.circuit import ClControlledOperation, ControlledOperation, PRXGate
+from qrisp.circuit import ClControlledOperation, ControlledOperation, PRXGate, U3Gate
 from qrisp.circuit.standard_operations import op_list
 from qrisp.misc import bin_rep
 
@@ -93,10 +93,9 @@ def convert_to_qiskit(qc, transpile=False):
             qiskit_ins.name = op.name
 
         elif op.name == "gphase":
-            temp_qc = QuantumCircuit(1)
-            temp_qc.global_phase += float(params[0])
-            qiskit_ins = temp_qc.to_gate()
-            qiskit_ins.name = "gphase"
+            # Qiskit treats the global phase as an attribute of the circuit
+            qiskit_qc.global_phase += params[0]
+            continue
 
         elif isinstance(op, ClControlledOperation):
             q_reg = QuantumRegister(op.num_qubits)
@@ -106,14 +105,27 @@ def convert_to_qiskit(qc, transpile=False):
                 from qiskit.circuit import IfElseOp
 
                 qregs = [qiskit_qc.qregs[qc.qubits.index(qb)] for qb in qc.data[i].qubits]
+                base_clbits = clbit_list[op.num_control :]
                 body_qc = QuantumCircuit(*qregs)
+                body_qc.add_bits(base_clbits)
                 if op.base_op.definition:
-                    body_qc = body_qc.compose(op.base_op.definition.to_qiskit())
+                    body_qc.compose(convert_to_qiskit(op.base_op.definition), qubit_list, base_clbits, inplace=True)
                 else:
                     base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
-                    body_qc.append(base_qiskit_ins, qubit_list)
-                qiskit_ins = IfElseOp((clbit_list[0], 1), true_body=body_qc)
-                clbit_list = []
+                    body_qc.append(base_qiskit_ins, qubit_list, base_clbits)
+
+                # One nested conditional per control bit
+                for j in reversed(range(op.num_control)):
+                    condition = (clbit_list[j], int(op.ctrl_state[j]))
+                    if clbit_list[j] not in body_qc.clbits:
+                        body_qc.add_bits([clbit_list[j]])
+                    qiskit_ins = IfElseOp(condition, true_body=body_qc)
+                    if j:
+                        outer_qc = QuantumCircuit(*qregs)
+                        outer_qc.add_bits(body_qc.clbits)
+                        outer_qc.append(qiskit_ins, qubit_list, body_qc.clbits)
+                        body_qc = outer_qc
+                clbit_list = body_qc.clbits
             except ImportError:
                 base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                 cl_reg = ClassicalRegister(op.num_clbits)
@@ -129,7 +141,7 @@ def convert_to_qiskit(qc, transpile=False):
             if len(base_name) == 1:
                 base_name = base_name.upper()
 
-            if op.base_operation.definition:
+            if op.base_operation.definition and op.base_operation.name not in ["rxx", "rzz", "ryy", "xxyy"]:
                 qiskit_definition = convert_to_qiskit(op.base_operation.definition)
                 base_gate = qiskit_definition.to_gate()
                 base_gate.name = op.base_operation.name
@@ -140,10 +152,11 @@ def convert_to_qiskit(qc, transpile=False):
             elif op.num_qubits == op.base_operation.num_qubits:
                 qiskit_ins = create_qiskit_instruction(op.base_operation, params)
             else:
-                base_gate = create_qiskit_instruction(op.base_operation, params)
+                base_gate = create_controllable_gate(op.base_operation, params)
                 qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
         else:
             qiskit_ins = create_qiskit_instruction(op, params)
+            qiskit_qc.global_phase += sx_phase(op)
 
         # Append to qiskit circuit
         qiskit_qc.append(qiskit_ins, qubit_list, clbit_list)
@@ -151,9 +164,23 @@ def convert_to_qiskit(qc, transpile=False):
     return qiskit_qc
 
 
+# Qiskit's SX gate differs from the one of Qrisp by a phase
+def sx_phase(op):
+    return {"sx": -np.pi / 4, "sx_dg": np.pi / 4}.get(op.name, 0)
+
+
+# Returns a Qiskit gate that agrees with op including the global phase
+def create_controllable_gate(op, params=[]):
+    import qiskit.circuit.library.standard_gates as qsk_gates
+
+    if op.name in ["sx", "sx_dg"]:
+        return qsk_gates.RXGate(-2 * sx_phase(op))
+    return create_qiskit_instruction(op, params)
+
+
 def create_qiskit_instruction(op, params=[]):
     import qiskit.circuit.library.standard_gates as qsk_gates
-    from qiskit import QiskitError
+    from qiskit import QiskitError, QuantumCircuit
     from qiskit.circuit import Barrier, Measure, Reset
 
     from qrisp.circuit import ControlledOperation
@@ -180,14 +207,14 @@ def create_qiskit_instruction(op, params=[]):
         if len(base_name) == 1:
             base_name = base_name.upper()
 
-        if op.base_operation.definition:
+        if op.base_operation.definition and op.base_operation.name not in ["rxx", "rzz", "ryy", "xxyy"]:
             qiskit_definition = convert_to_qiskit(op.base_operation.definition)
             base_gate = qiskit_definition.to_gate()
             base_gate.name = op.base_operation.name
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
 
         else:
-            base_gate = create_qiskit_instruction(op.base_operation, params)
+            base_gate = create_controllable_gate(op.base_operation, params)
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
     elif op.name == "rxx":
         qiskit_ins = qsk_gates.RXXGate(*params)
@@ -243,13 +270,19 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "u3":
         qiskit_ins = qsk_gates.U3Gate(*params)
     elif op.name == "r":
-        qiskit_ins = qsk_gates.RGate(*params)
+        # Qiskit measures the axis angle from the x-axis
+        qiskit_ins = qsk_gates.RGate(params[0], params[1] - np.pi / 2)
     elif isinstance(op, PRXGate):
         qiskit_ins = qsk_gates.RGate(op.alpha, op.beta)
     elif op.name == "id":
         qiskit_ins = qsk_gates.IGate()
     elif op.name == "reset":
         qiskit_ins = Reset()
+    elif isinstance(op, U3Gate) and not op.abstract_params:
+        temp_qc = QuantumCircuit(1, global_phase=op.global_phase - (op.phi + op.lam) / 2)
+        temp_qc.append(qsk_gates.U3Gate(op.theta, op.phi, op.lam), [0])
+        qiskit_ins = temp_qc.to_gate()
+        qiskit_ins.name = op.name
     elif op.definition:
         qiskit_definition = convert_to_qiskit(op.definition)
         try:
@@ -311,16 +344,39 @@ def convert_from_qiskit(qiskit_qc):
 
     from sympy import sympify
 
+    global_phase = getattr(qiskit_qc, "global_phase", 0)
+
     for i in range(len(qiskit_qc.data)):
         qiskit_op = qiskit_qc.data[i].operation
 
+        if qiskit_op.name == "if_else":
+            condition_target, condition_value = qiskit_op.condition
+            if len(qiskit_op.blocks) != 1:
+                raise NotImplementedError("Qiskit conditionals with an else-block are not supported")
+
+            if condition_target in cb_dic:
+                condition_target = [condition_target]
+            condition_bits = [cb_dic[cb] for cb in condition_target]
+            condition_state = bin_rep(int(condition_value), len(condition_bits))[::-1]
+
+            body_qc = convert_from_qiskit(qiskit_op.blocks[0])
+            for instr in body_qc.data:
+                op, ctrl_state = instr.op, condition_state
+                # Nested conditionals become a single one with several control bits
+                if isinstance(op, ClControlledOperation):
+                    op, ctrl_state = op.base_op, ctrl_state + op.ctrl_state
+                qc.append(
+                    op.c_if(len(ctrl_state), ctrl_state),
+                    [qb_dic[qiskit_qc.data[i].qubits[body_qc.qubits.index(qb)]] for qb in instr.qubits],
+                    condition_bits
+                    + [cb_dic[qiskit_qc.data[i].clbits[body_qc.clbits.index(cb)]] for cb in instr.clbits],
+                )
+            continue
+
         if hasattr(qiskit_op, "condition_bits"):
             condition_bits = [cb_dic[cb] for cb in qiskit_op.condition_bits]
             if condition_bits:
                 condition_value = qiskit_op.condition[1]
-        elif hasattr(qiskit_op, "is_control_flow") and qiskit_op.is_control_flow():
-            condition_bits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
-            condition_value = qiskit_op.condition[1]
         else:
             condition_bits = []
 
@@ -363,7 +419,20 @@ def convert_from_qiskit(qiskit_qc):
             from qrisp.circuit import PRXGate as _PRXGate
 
             op = _PRXGate(params[0], params[1])
+        elif controlled_gate and qiskit_op.name in ["sx", "u"]:
+            # Account for the phase between the Qiskit and the Qrisp version of SX
+            # and the fourth parameter of Qiskit's CU gate
+            temp_qc = QuantumCircuit(1)
+            if qiskit_op.name == "sx":
+                temp_qc.gphase(np.pi / 4, 0)
+                temp_qc.append(op_dic["sx"](), temp_qc.qubits)
+            else:
+                temp_qc.gphase(params[3] if len(params) == 4 else 0, 0)
+                temp_qc.append(op_dic["u3"](*params[:3]), temp_qc.qubits)
+            op = temp_qc.to_gate(name=qiskit_op.name)
         else:
+            if qiskit_op.name == "sx":
+                global_phase = global_phase + np.pi / 4
             try:
                 op = op_dic[qiskit_op.name](*params)
             except KeyError:
@@ -398,7 +467,9 @@ def convert_from_qiskit(qiskit_qc):
     # Propagate Qiskit's global phase (stored as a circuit attribute,
     # not an instruction).  Dropping it changes the unitary — critical
     # for controlled operations built from gate definitions with phase.
-    if abs(getattr(qiskit_qc, "global_phase", 0)) > 1e-10:
-        qc.gphase(qiskit_qc.global_phase, qc.qubits[0])
+    if isinstance(global_phase, ParameterExpression):
+        qc.gphase(sympify(ParameterExpression.sympify(global_phase)), qc.qubits[0])
+    elif abs(np.exp(1j * global_phase) - 1) > 1e-10:
+        qc.gphase(global_phase, qc.qubits[0])
 
     return qc
-- 
2.43.0


From b71f8be8e68aaf0cbb7fe0a018af416d2898184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:10 +0000
Subject: [PATCH 19/83] fix: allow barriers in multi-controlled circuits

---
 src/qrisp/circuit/controlled_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 88ddbb0..b92460e 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -38,7 +38,7 @@ def multi_controlled_circuit(input_circuit, control_amount=1, ctrl_state=-1, met
 
     # Apply controlled instructions
     for ins in input_circuit.data:
-        if ins.op.name in ["qb_alloc", "qb_dealloc"]:
+        if ins.op.name in ["qb_alloc", "qb_dealloc", "barrier"]:
             # raise
             controlled_circuit.append(ins.op, ins.qubits)
             continue
-- 
2.43.0


From e10d8ec9ec75380eedf5f6ef26c75741bec69c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:10 +0000
Subject: [PATCH 20/83] fix: insert collected global phases after the last
 operation of the circuit

---
 .../circuit/pass_management/passes/decompose.py  | 14 ++++++++++----
 .../pass_management/passes/fuse_adjacents.py     | 16 +++++++++++++++-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/decompose.py b/src/qrisp/circuit/pass_management/passes/decompose.py
index a281561..0bb126a 100644
--- a/src/qrisp/circuit/pass_management/passes/decompose.py
+++ b/src/qrisp/circuit/pass_management/passes/decompose.py
@@ -29,8 +29,8 @@ from qrisp.circuit.quantum_circuit import QuantumCircuit
 
 def _collect_gphases(qc: QuantumCircuit) -> QuantumCircuit:
     """Remove all ``gphase`` gates from *qc*, accumulate their phases, and
-    append a single ``gphase`` on the first qubit of the last instruction
-    whose ``num_qubits > 0``.
+    insert a single ``gphase`` on the first qubit of the last instruction
+    whose ``num_qubits > 0`` and which is no (de)allocation or barrier.
     """
     accumulated_phase = 0.0
     kept = []
@@ -39,10 +39,14 @@ def _collect_gphases(qc: QuantumCircuit) -> QuantumCircuit:
     for instr in qc.data:
         if instr.op.name == "gphase":
             accumulated_phase += instr.op.params[0]
+            if anchor_qubit is None:
+                anchor_qubit = instr.qubits[0]
+                anchor_index = len(kept)
         else:
             kept.append(instr)
-            if instr.op.num_qubits > 0:
+            if instr.op.num_qubits > 0 and instr.op.name not in ("qb_alloc", "qb_dealloc", "barrier"):
                 anchor_qubit = instr.qubits[0]
+                anchor_index = len(kept)
 
     # Rebuild circuit from kept instructions
     new_qc = qc.clearcopy()
@@ -51,8 +55,10 @@ def _collect_gphases(qc: QuantumCircuit) -> QuantumCircuit:
 
     # Emit accumulated phase
     accumulated_phase = accumulated_phase % (2 * np.pi)
-    if isinstance(accumulated_phase, sp.Expr) or (abs(accumulated_phase) > 1e-10 and anchor_qubit is not None):
+    if isinstance(accumulated_phase, sp.Expr) or (abs(accumulated_phase) > 1e-10 and kept):
         new_qc.gphase(accumulated_phase, anchor_qubit)
+        # The anchor qubit might be deallocated by a later instruction
+        new_qc.data.insert(anchor_index, new_qc.data.pop())
 
     return new_qc
 
diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 4bd0a57..96fb664 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -715,6 +715,10 @@ def _emit_surviving_circuit(G, data_list, qc, gphase_array):
     qc_new = qc.clearcopy()
     topo_sort = list(nx.topological_sort(G))
 
+    # The accumulated global phase is attached to the last instruction which is no
+    # (de)allocation or barrier, such that it involves no otherwise unused qubit
+    anchor_qubit = None
+
     with fast_append(3):
         for i in topo_sort:
             if i < 0:
@@ -724,12 +728,22 @@ def _emit_surviving_circuit(G, data_list, qc, gphase_array):
             # was already absorbed into the accumulated counter).
             if data_list[i].op.name != "gphase":
                 qc_new.append(data_list[i].op, data_list[i].qubits, qc.data[i].clbits)
+                if data_list[i].qubits and data_list[i].op.name not in ("qb_alloc", "qb_dealloc", "barrier"):
+                    anchor_qubit = data_list[i].qubits[0]
+                    anchor_index = len(qc_new.data)
             else:
                 gphase_array[0] += data_list[i].op.params[0]
+                if anchor_qubit is None:
+                    anchor_qubit = data_list[i].qubits[0]
+                    anchor_index = len(qc_new.data)
 
     # If accumulated global phase is non-zero, emit a gphase gate.
     if gphase_array[0] != 0:
-        qc_new.gphase(gphase_array[0], qc_new.qubits[0])
+        if anchor_qubit is None:
+            anchor_qubit = qc_new.qubits[0]
+            anchor_index = len(qc_new.data)
+        qc_new.gphase(gphase_array[0], anchor_qubit)
+        qc_new.data.insert(anchor_index, qc_new.data.pop())
 
     return qc_new
 
-- 
2.43.0


From 14d16e0ed082dac1693e6872903e2db24784b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:10 +0000
Subject: [PATCH 21/83] fix: respect control states and barriers in nested
 control environments

---
 src/qrisp/environments/control_environment.py | 115 +++++++++++-------
 .../environments/quantum_conditionals.py      |  18 ++-
 2 files changed, 88 insertions(+), 45 deletions(-)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index d75dd67..2cc5aa2 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -119,6 +119,8 @@ class ControlEnvironment(QuantumEnvironment):
             self.qbool = QuantumBool(name="ctrl_env*", qs=self.arg_qs)
             self.condition_truth_value = self.qbool[0]
 
+        self.is_open = True
+
         QuantumEnvironment.__enter__(self)
 
         merge_sessions(self.env_qs, self.arg_qs)
@@ -126,29 +128,55 @@ class ControlEnvironment(QuantumEnvironment):
         return self.condition_truth_value
 
     def __exit__(self, exception_type, exception_value, traceback):
-        from qrisp.environments import (
-            ConditionEnvironment,
-            ControlEnvironment,
-            InversionEnvironment,
-        )
-
         if check_for_tracing_mode():
             QuantumEnvironment.__exit__(self, exception_type, exception_value, traceback)
             return
         self.parent_cond_env = None
+        self.is_open = False
 
         QuantumEnvironment.__exit__(self, exception_type, exception_value, traceback)
 
-        from qrisp import ConjugationEnvironment
-
         # Determine the parent environment
+        self.parent_cond_env = self.get_parent_cond_env()
+
+    # Determines the conditional/control environment, which merges its condition
+    # into the condition of this environment
+    def get_parent_cond_env(self):
+        from qrisp.environments import (
+            ConditionEnvironment,
+            ConjugationEnvironment,
+            ControlEnvironment,
+            InversionEnvironment,
+        )
+
         for env in self.env_qs.env_stack[::-1]:
+            if env is self:
+                continue
             if isinstance(env, (ControlEnvironment, ConditionEnvironment)):
-                self.parent_cond_env = env
-                break
+                return env
             if not isinstance(env, (InversionEnvironment, ConjugationEnvironment)):
                 if not type(env) == QuantumEnvironment:
-                    break
+                    return None
+
+    # The value of the condition_truth_value qubit for which the content is executed
+    @property
+    def truth_state(self):
+        # If there is a parent environment, the condition is merged with the condition
+        # of the parent into a qubit which is 1 if the content is executed
+        if self.is_open:
+            parent_cond_env = self.get_parent_cond_env()
+        else:
+            parent_cond_env = self.parent_cond_env
+
+        if parent_cond_env is not None:
+            return "1"
+
+        truth_state = self.ctrl_state if len(self.ctrl_qubits) == 1 else "1"
+
+        if self.invert:
+            return "0" if truth_state == "1" else "1"
+
+        return truth_state
 
     def compile(self):
         from qrisp import QuantumBool
@@ -195,18 +223,8 @@ class ControlEnvironment(QuantumEnvironment):
 
                 ctrl_qubits.append(self.parent_cond_env.condition_truth_value)
 
-                parent_ctrl_state = "1"
-
-                if isinstance(self.parent_cond_env, ControlEnvironment):
-                    if len(self.parent_cond_env.ctrl_qubits) == 1:
-                        if self.parent_cond_env.ctrl_state == "0" and not hasattr(self.parent_cond_env, "qbool"):
-                            parent_ctrl_state = "0"
-
-                    if self.parent_cond_env.invert:
-                        if parent_ctrl_state == "0":
-                            parent_ctrl_state = "1"
-                        elif parent_ctrl_state == "1":
-                            parent_ctrl_state = "0"
+                # The value of the parents truth value qubit for which its content is executed
+                parent_ctrl_state = self.parent_cond_env.truth_state
 
                 cond_compile_ctrl_state = cond_compile_ctrl_state + parent_ctrl_state
 
@@ -223,6 +241,11 @@ class ControlEnvironment(QuantumEnvironment):
                     method=method,
                 )
 
+            if self.invert and self.parent_cond_env is not None:
+                # The content may only be executed if the parent is executed, so
+                # the truth value has to become "parent and not condition"
+                mcx(ctrl_qubits[-1:], self.condition_truth_value, ctrl_state=parent_ctrl_state)
+
             perm_lock(ctrl_qubits)
             # unlock(self.condition_truth_value)
 
@@ -231,7 +254,7 @@ class ControlEnvironment(QuantumEnvironment):
             # The instruction from the subcondition environments do not need to be
             # controlled, since their compile method compiles their condition
             # truth value based on the truth value of the parent environment.
-            subcondition_truth_values = [env.condition_truth_value for env in self.sub_condition_envs]
+            subcondition_truth_values = get_subcondition_truth_values(self)
             inversion_tracker = 1
 
             # Now we need to recover the instructions from the data list
@@ -240,10 +263,14 @@ class ControlEnvironment(QuantumEnvironment):
                 instruction = self.env_data.pop(0)
 
                 # If the instruction == conditional environment, compile the environment
-                if isinstance(instruction, (ControlEnvironment, ConditionEnvironment)):
+                # (without a parent it does not consider the condition of this environment)
+                if (
+                    isinstance(instruction, (ControlEnvironment, ConditionEnvironment))
+                    and instruction.parent_cond_env is not None
+                ):
                     instruction.compile()
 
-                    subcondition_truth_values = [env.condition_truth_value for env in self.sub_condition_envs]
+                    subcondition_truth_values = get_subcondition_truth_values(self)
                     continue
 
                 # If the instruction is a general environment, compile the instruction
@@ -257,7 +284,7 @@ class ControlEnvironment(QuantumEnvironment):
                     self.env_qs.clear_data()
                     self.env_qs.data.extend(temp_data_list)
 
-                    subcondition_truth_values = [env.condition_truth_value for env in self.sub_condition_envs]
+                    subcondition_truth_values = get_subcondition_truth_values(self)
                     continue
 
                 if (
@@ -300,20 +327,7 @@ class ControlEnvironment(QuantumEnvironment):
                         )
                     continue
 
-                if len(ctrl_qubits) == 1:
-                    ctrl_state = self.ctrl_state
-                else:
-                    ctrl_state = "1"
-
-                if self.invert:
-                    new_ctrl_state = ""
-                    for c in ctrl_state:
-                        if c == "1":
-                            new_ctrl_state += "0"
-                        else:
-                            new_ctrl_state += "1"
-
-                    ctrl_state = new_ctrl_state
+                ctrl_state = self.truth_state
 
                 if self.condition_truth_value in instruction.qubits:
                     self.env_qs.append(
@@ -343,6 +357,9 @@ class ControlEnvironment(QuantumEnvironment):
             if inversion_tracker == -1:
                 x(self.condition_truth_value)
 
+            if self.invert and self.parent_cond_env is not None:
+                mcx(ctrl_qubits[-1:], self.condition_truth_value, ctrl_state=parent_ctrl_state)
+
             if len(ctrl_qubits) > 1:
                 if len(ctrl_qubits) > 5:
                     method = "auto"
@@ -387,6 +404,20 @@ class ControlEnvironment(QuantumEnvironment):
         insert_outvalues(eqn, context_dic, res)
 
 
+# This function returns the truth values of the conditional/control environments, which
+# are executed depending on the truth value of the given environment. If the environment
+# was opened inside a custom controlled function, it shares its truth value with one of
+# the surrounding environments.
+def get_subcondition_truth_values(environment):
+    res = []
+    env = environment
+    while env is not None:
+        if getattr(env, "condition_truth_value", None) is environment.condition_truth_value:
+            res.extend(sub_env.condition_truth_value for sub_env in env.sub_condition_envs)
+        env = env.parent
+    return res
+
+
 # This function turns instructions where the definition contains CustomControlOperations
 # into CustomControlOperations. For this it checks that all Instructions that are acting
 # on the control_qubit are also CustomControlOperations.
@@ -430,6 +461,8 @@ def convert_to_custom_control(instruction, control_qubit, invert_control=False):
             # recursively to make sure that we are indeed appending a custom_control
             # operation
             new_definition.append(convert_to_custom_control(def_instr, new_control_qubit))
+        elif def_instr.op.name == "barrier":
+            new_definition.append(def_instr)
         else:
             # Else, we generate the operations regular control
             new_op = def_instr.op.control(1)
diff --git a/src/qrisp/environments/quantum_conditionals.py b/src/qrisp/environments/quantum_conditionals.py
index fd309b7..26d2153 100644
--- a/src/qrisp/environments/quantum_conditionals.py
+++ b/src/qrisp/environments/quantum_conditionals.py
@@ -325,6 +325,9 @@ class ConditionEnvironment(QuantumEnvironment):
 
         self.manual_allocation_management = True
 
+        # The value of the condition_truth_value qubit for which the content is executed
+        self.truth_state = "1"
+
     # Method to enter the environment
     def __enter__(self):
         from qrisp.qtypes.quantum_bool import QuantumBool
@@ -407,7 +410,10 @@ class ConditionEnvironment(QuantumEnvironment):
 
                 from qrisp import mcx
 
-                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt")
+                # The parent might execute its content in the 0 state of its truth value
+                toffoli_ctrl_state = self.parent_cond_env.truth_state + "1"
+
+                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt", ctrl_state=toffoli_ctrl_state)
 
             else:
                 # Without any parent environment we can simply synhesize the
@@ -442,7 +448,11 @@ class ConditionEnvironment(QuantumEnvironment):
                 instruction = self.env_data.pop(0)
 
                 # If the instruction == conditional environment, compile the environment
-                if isinstance(instruction, (ControlEnvironment, ConditionEnvironment)):
+                # (without a parent it does not consider the condition of this environment)
+                if (
+                    isinstance(instruction, (ControlEnvironment, ConditionEnvironment))
+                    and instruction.parent_cond_env is not None
+                ):
                     instruction.compile()
 
                     subcondition_truth_values = [env.condition_truth_value for env in self.sub_condition_envs]
@@ -462,7 +472,7 @@ class ConditionEnvironment(QuantumEnvironment):
                     subcondition_truth_values = [env.condition_truth_value for env in self.sub_condition_envs]
                     continue
 
-                if instruction.op.name in ["qb_alloc", "qb_dealloc"]:
+                if instruction.op.name in ["qb_alloc", "qb_dealloc", "barrier"]:
                     self.env_qs.append(instruction)
                     continue
 
@@ -516,7 +526,7 @@ class ConditionEnvironment(QuantumEnvironment):
             # this environments truth value
             if self.parent_cond_env is not None:
                 self.parent_cond_env.sub_condition_envs.extend(self.sub_condition_envs + [self])
-                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv")
+                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv", ctrl_state=toffoli_ctrl_state)
                 self.qbool.delete()
 
             # We now uncompute the environments' truth value
-- 
2.43.0


From fcec63cca367feb98b8ae958135cc28b4fc35e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:10 +0000
Subject: [PATCH 22/83] fix: retarget custom controlled operations inside
 nested control environments

---
 .../custom_control_environment.py             | 20 +++++++++++++++++++
 src/qrisp/misc/utility.py                     |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/src/qrisp/environments/custom_control_environment.py b/src/qrisp/environments/custom_control_environment.py
index 15279fa..a1df94a 100644
--- a/src/qrisp/environments/custom_control_environment.py
+++ b/src/qrisp/environments/custom_control_environment.py
@@ -294,6 +294,26 @@ class CustomControlEnvironment(QuantumEnvironment):
         QuantumEnvironment.__enter__(self)
         merge([self.env_qs, self.control_qb.qs()])
 
+    # Replaces the control qubit in this environment and in the control environments,
+    # that have been opened on it by the custom controlled function
+    def retarget_control(self, new_control_qb):
+        from qrisp.environments import ControlEnvironment
+
+        old_control_qb = self.control_qb
+        self.control_qb = new_control_qb
+
+        env_list = [instr for instr in self.env_data if isinstance(instr, QuantumEnvironment)]
+
+        while env_list:
+            env = env_list.pop()
+            if isinstance(env, ControlEnvironment) and old_control_qb in env.ctrl_qubits:
+                env.ctrl_qubits = [new_control_qb if qb == old_control_qb else qb for qb in env.ctrl_qubits]
+                if env.condition_truth_value == old_control_qb:
+                    env.condition_truth_value = new_control_qb
+            elif isinstance(env, CustomControlEnvironment) and env.control_qb == old_control_qb:
+                env.control_qb = new_control_qb
+            env_list.extend(instr for instr in env.env_data if isinstance(instr, QuantumEnvironment))
+
     def compile(self):
 
         original_data = list(self.env_qs.data)
diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 32bd0bf..821458d 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1347,11 +1347,15 @@ def find_calling_line(level=0):
 
 def retarget_instructions(data, source_qubits, target_qubits):
     from qrisp import QuantumEnvironment
+    from qrisp.environments import CustomControlEnvironment
 
     for i in range(len(data)):
         instr = data[i]
 
         if isinstance(instr, QuantumEnvironment):
+            if isinstance(instr, CustomControlEnvironment) and instr.control_qb in source_qubits:
+                # The custom controlled function received the control qubit as an argument
+                instr.retarget_control(target_qubits[source_qubits.index(instr.control_qb)])
             retarget_instructions(instr.original_data, source_qubits, target_qubits)
             retarget_instructions(instr.env_data, source_qubits, target_qubits)
             continue
-- 
2.43.0


From caee287de4e79686d1d3c7977ca08129214752e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:10 +0000
Subject: [PATCH 23/83] fix: keep the permeability type per qubit on edges
 between the same nodes

---
 src/qrisp/permeability/permeability_dag.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 05bd044..d378b0a 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -229,7 +229,13 @@ class PermeabilityGraph(nx.DiGraph):
         if self.has_edge(in_node, out_node):
             nx.DiGraph.get_edge_data(self, in_node, out_node)["qubits"].extend(qubits)
         else:
-            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits))
+            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits), qubit_types={})
+
+        # Two nodes can be connected by qubits of different permeability types
+        qubit_types = nx.DiGraph.get_edge_data(self, in_node, out_node)["qubit_types"]
+        for qb in qubits:
+            if qubit_types.get(qb, "anti_dependency") == "anti_dependency":
+                qubit_types[qb] = edge_type
 
     def get_target_qubits(self, node):
         """Returns the target qubits of a node, i.e. the qubits that have either neutral or X-permeability.
@@ -257,8 +263,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
-                target_qubits.extend(data["qubits"])
+            target_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] != "Z"])
 
         return target_qubits
 
@@ -291,8 +296,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
-                control_qubits.extend(data["qubits"])
+            control_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] == "Z"])
 
         return control_qubits
 
@@ -323,7 +327,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
+            if "Z" in data["qubit_types"].values():
                 control_nodes.append(in_node)
 
         return control_nodes
@@ -355,7 +359,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
+            if set(data["qubit_types"].values()) != {"Z"}:
                 target_nodes.append(in_node)
 
         return target_nodes
-- 
2.43.0


From 38d7952e40d79c3076e7c2b631ed30c39748d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:10 +0000
Subject: [PATCH 24/83] fix: insert phase tolerant gates before building the
 uncomputation graph and keep the circuit on failure

---
 .../permeability/qc_transformations/unqomp.py | 75 +++++++++++++++----
 1 file changed, 62 insertions(+), 13 deletions(-)

diff --git a/src/qrisp/permeability/qc_transformations/unqomp.py b/src/qrisp/permeability/qc_transformations/unqomp.py
index f34f3e8..e119e01 100644
--- a/src/qrisp/permeability/qc_transformations/unqomp.py
+++ b/src/qrisp/permeability/qc_transformations/unqomp.py
@@ -15,6 +15,8 @@
 ********************************************************************************
 """
 
+from collections import Counter
+
 import networkx as nx
 
 from qrisp.circuit import ControlledOperation, PTControlledOperation, fast_append
@@ -22,6 +24,7 @@ from qrisp.permeability.permeability_dag import (
     InstructionNode,
     PermeabilityGraph,
     TerminatorNode,
+    get_perm_dic,
 )
 from qrisp.permeability.type_checker import is_qfree
 
@@ -82,6 +85,13 @@ def uncompute_qc(qc, uncomp_qbs, recompute_qubits=[]):
 
         follow_up_instructions = follow_up_instructions[::-1]
 
+        # Replace controlled operations by phase tolerant controlled operations. This needs
+        # to happen before the pdag is built, because the phase tolerant versions have a
+        # different permeability on their targets.
+        allocations = [instr.qubits[0] for instr in qc_new.data if instr.op.name == "qb_alloc"]
+        reallocated_qbs = set(qb for qb, count in Counter(allocations).items() if count > 1)
+        qc_new.data = [insert_phase_tolerance(instr, uncomp_qbs, reallocated_qbs) for instr in qc_new.data]
+
         # Build up the pdag
         pdag = PermeabilityGraph(qc_new)
         # Now come the steps of the Unqomp algorithm
@@ -222,18 +232,9 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
     #     if not ctrls[i].uncomputed_node is None:
     #         ctrls[i] = ctrls[i].uncomputed_node
 
-    # Replace controlled operations by phase tolerant controlled operations
-    if isinstance(node.instr.op, ControlledOperation):
-        op = node.instr.op
-
-        if op.method == "auto" and len(op.controls) < 5 or op.method == "gray":
-            if len(op.controls) != 1:
-                node.instr.op = PTControlledOperation(
-                    op.base_operation,
-                    num_ctrl_qubits=len(op.controls),
-                    ctrl_state=op.ctrl_state,
-                    method="gray_pt",
-                )
+    # The instruction might still be part of the original circuit, which has to stay
+    # intact if the uncomputation fails
+    node.instr = node.instr.copy()
 
     from qrisp.alg_primitives.logic_synthesis import LogicSynthGate
 
@@ -281,7 +282,7 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
     # This dictionary will hold the control qubits of each control edge
     ctrl_qubit_dic = {}
     for c in ctrls:
-        ctrl_qubit_dic[c] = pdag.get_edge_qubits(c, node)
+        ctrl_qubit_dic[c] = [qb for qb in pdag.get_edge_qubits(c, node) if qb not in target_qubits]
 
     while len(ctrls):
         # Set alias
@@ -378,6 +379,54 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
     return False
 
 
+def insert_phase_tolerance(instr, uncomp_qbs, reallocated_qbs):
+    """Returns the phase tolerant version of an instruction that is going to be
+    uncomputed, or the instruction itself if there is no such version.
+
+    Parameters
+    ----------
+    instr : Instruction
+        The instruction to replace.
+    uncomp_qbs : list[Qubit]
+        The qubits that are supposed to be uncomputed.
+    reallocated_qbs : set[Qubit]
+        The qubits with more than one allocation.
+
+    Returns
+    -------
+    Instruction
+        The instruction to use for the uncomputation.
+
+    """
+    op = instr.op
+
+    if not isinstance(op, ControlledOperation) or len(op.controls) == 1:
+        return instr
+
+    if not (op.method == "auto" and len(op.controls) < 5 or op.method == "gray"):
+        return instr
+
+    # The phases only cancel if the instruction is indeed uncomputed
+    if not set(instr.qubits[len(op.controls) :]).issubset(uncomp_qbs):
+        return instr
+
+    if "Z" in get_perm_dic(op.base_operation).values() or not is_qfree(op):
+        return instr
+
+    if reallocated_qbs.intersection(instr.qubits):
+        return instr
+
+    instr = instr.copy()
+    instr.op = PTControlledOperation(
+        op.base_operation,
+        num_ctrl_qubits=len(op.controls),
+        ctrl_state=op.ctrl_state,
+        method="gray_pt",
+    )
+
+    return instr
+
+
 def detect_double_alloc(lin, qubits):
     qb_allocs = []
     for node in lin:
-- 
2.43.0


From d105548185338886f96d2dae754754d52755b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:39 +0000
Subject: [PATCH 25/83] fix: leave unused classical bits of the session out of
 wrapped gates

---
 src/qrisp/environments/gate_wrap_environment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/environments/gate_wrap_environment.py b/src/qrisp/environments/gate_wrap_environment.py
index dd2c6e1..a38fce3 100644
--- a/src/qrisp/environments/gate_wrap_environment.py
+++ b/src/qrisp/environments/gate_wrap_environment.py
@@ -180,6 +180,11 @@ class GateWrapEnvironment(QuantumEnvironment):
                     qc.qubits.pop(i)
                     break
 
+        # Classical bits of the session that are not used by the wrapped instructions
+        # are not part of the gate
+        used_clbits = set([cb for instr in qc.data for cb in instr.clbits])
+        qc.clbits = [cb for cb in qc.clbits if cb in used_clbits]
+
         translation_dic_inv = {translation_dic[key]: key for key in translation_dic.keys()}
 
         gate = qc.to_gate(self.name)
-- 
2.43.0


From 615b985c667b333fc107593369a073864f2e9147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:44 +0000
Subject: [PATCH 26/83] fix: undo the phases of the four-controlled khattar
 gate with the same control order

---
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index bf81040..c978bc2 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -113,9 +113,9 @@ def cca_4ctrls(ctrls, target):
 
     mcx([ctrls[1], cca4_anc[0]], target[0])
 
-    mcx([ctrls[2], ctrls[3]], ctrls[1], method="gray_pt")
+    mcx([ctrls[3], ctrls[2]], ctrls[1], method="gray_pt_inv")
     x(ctrls[1])
-    mcx([ctrls[0], ctrls[1]], cca4_anc[0], method="gray_pt")
+    mcx([ctrls[1], ctrls[0]], cca4_anc[0], method="gray_pt_inv")
 
     cca4_anc.delete()
 
-- 
2.43.0


From ee806ba1ca4ed27e134743dbcc85223261d949dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:44 +0000
Subject: [PATCH 27/83] fix: respect control states of traced multi-controlled
 gates and handle single qubit phases

---
 src/qrisp/alg_primitives/mcx_algs/balauca.py |  3 +++
 src/qrisp/core/gate_application_functions.py | 24 +++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/balauca.py b/src/qrisp/alg_primitives/mcx_algs/balauca.py
index 9e908c9..67720a8 100644
--- a/src/qrisp/alg_primitives/mcx_algs/balauca.py
+++ b/src/qrisp/alg_primitives/mcx_algs/balauca.py
@@ -483,6 +483,9 @@ def jasp_balauca_mcx(ctrls, target, ctrl_state):
     from qrisp import mcx  # Double import
     from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_bigintiger import BigInteger
 
+    if isinstance(ctrl_state, str):
+        ctrl_state = int(ctrl_state[::-1], 2)
+
     if not isinstance(ctrl_state, BigInteger):
         ctrl_state = jnp.int64(ctrl_state)
         ctrl_state = cond(ctrl_state == -1, lambda x: x + 2**N, lambda x: x, ctrl_state)
diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 9a63f04..ae49200 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -486,6 +486,14 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
     from qrisp.misc import bin_rep
     from qrisp.qtypes import QuantumBool
 
+    # Flips the controls of a logical AND that have to be in state |0>
+    def flip_zero_controls(qubits, ctrl_state):
+        if not isinstance(ctrl_state, str):
+            ctrl_state = bin_rep(ctrl_state % 4, 2)[::-1]
+        for i in range(2):
+            if ctrl_state[i] == "0":
+                x(qubits[i])
+
     if isinstance(controls, list):
         new_controls = []
         for qbl in controls:
@@ -548,7 +556,9 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Tried to call Gidney logical AND with {len(qubits_0)} controls instead of two")
 
         if check_for_tracing_mode():
+            flip_zero_controls(qubits_0, ctrl_state)
             jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            flip_zero_controls(qubits_0, ctrl_state)
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state),
@@ -560,8 +570,10 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Tried to call Gidney logical AND with {len(qubits_0)} controls instead of two")
 
         if check_for_tracing_mode():
+            flip_zero_controls(qubits_0, ctrl_state)
             with invert():
                 jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            flip_zero_controls(qubits_0, ctrl_state)
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state, inv=True),
@@ -691,6 +703,10 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
         )
         h(qubits[-1])
 
+        # Without controls, the above mcx performs no operation
+        with control(n == 1):
+            z(qubits[-1])
+
         with control((ctrl_state >> (n - 1)) & 1 == 0):
             x(qubits[-1])
 
@@ -706,7 +722,7 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
         return jasp_mcz_inner(qubits, method=method, ctrl_state=ctrl_state)
 
     if method in ["gray", "auto"]:
@@ -789,13 +805,15 @@ def mcp(phi, qubits, method="auto", ctrl_state=-1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
 
     if method == "gray" or method == "gray_pt":
         if ctrl_state[-1] == "0":
             x(qubits[-1])
 
-        if check_for_tracing_mode():
+        if not check_for_tracing_mode() and n == 1:
+            p(phi, qubits[0])
+        elif check_for_tracing_mode():
             mcp_gate = std_ops.PGate(sympy.Symbol("alpha")).control(n - 1, ctrl_state=ctrl_state[:-1], method=method)
             append_operation(mcp_gate, qubits, param_tracers=[phi])
         else:
-- 
2.43.0


From bb225982c15e5f8fbe2d96b75f93922580f239ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:13 +0000
Subject: [PATCH 28/83] fix: correct the phase of the measurement based jones
 Toffoli

---
 src/qrisp/alg_primitives/mcx_algs/circuit_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
index 2152324..6aaa90a 100644
--- a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
+++ b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
@@ -145,7 +145,7 @@ selinger_toffoli_qc.h(2)
 # Implementation of the T-Depth 1 Toffoli found in https://arxiv.org/pdf/1212.5069.pdf
 jones_toffoli_qc = QuantumCircuit(5, 1)
 jones_toffoli_qc.append(selinger_toffoli_qc.to_gate("selinger_quasi_toffoli"), [0, 1, 3, 4])
-jones_toffoli_qc.s(3)
+jones_toffoli_qc.s_dg(3)
 jones_toffoli_qc.cx(3, 2)
 jones_toffoli_qc.h(3)
 jones_toffoli_qc.measure(3, 0)
-- 
2.43.0


From 7a0648b5b853269d5a378cbe33ae97d208c3ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:13 +0000
Subject: [PATCH 29/83] fix: let several maslov gates coexist when sessions are
 merged

---
 src/qrisp/core/gate_application_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index ae49200..704b0f9 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -584,7 +584,7 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         from qrisp import QuantumBool
 
         if n >= 3:
-            ancilla = [QuantumBool(name="maslov_anc_")]
+            ancilla = [QuantumBool(name="maslov_anc*")]
         else:
             ancilla = []
         append_operation(maslov_mcx(n, ctrl_state), qubits_0 + ancilla + qubits_1)
-- 
2.43.0


From 2201af2dfaf179b79eb27916012864454f3f6b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:13 +0000
Subject: [PATCH 30/83] fix: merge with the environment sessions before
 checking the name of a new variable

---
 src/qrisp/core/quantum_session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/core/quantum_session.py b/src/qrisp/core/quantum_session.py
index 2a7eec7..ab83181 100644
--- a/src/qrisp/core/quantum_session.py
+++ b/src/qrisp/core/quantum_session.py
@@ -206,6 +206,11 @@ class QuantumSession(QuantumCircuit):
         None.
 
         """
+        # Allocating qubits merges this session with the sessions of the surrounding
+        # environments, so this has to happen before the name can be checked
+        if size:
+            multi_session_merge([self])
+
         if qv.name in [temp_qv.name for temp_qv in self.qv_list + self.deleted_qv_list]:
             raise RuntimeError("Variable name " + str(qv.name) + " already exists in quantum session")
 
-- 
2.43.0


From e1c247f6c414e944599086b54502fca6a395ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:44 +0000
Subject: [PATCH 31/83] fix: keep qubit allocations out of gate fusion

---
 src/qrisp/circuit/pass_management/passes/fuse_adjacents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 96fb664..cfa200a 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -511,6 +511,10 @@ def _fuse_operations(op_a, op_b, gphase_array):
     #    cancellation only becomes visible after decomposition.
     #    This is an escape hatch for cases where the inverse names
     #    don't match but the decompositions partially cancel.
+    #    (De)allocations have to stay visible to the compiler.
+    if "alloc" in (op_a.name[-5:], op_b.name[-5:]):
+        return None
+
     if (op_a.definition or op_b.definition) and op_a.num_clbits == 0 == op_b.num_clbits:
         result = _fuse_via_transpile(op_a, op_b)
         if result is not None:
-- 
2.43.0


From aaa6bcfcd3013cce2622f52e408096e20863ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:44 +0000
Subject: [PATCH 32/83] fix: correct QuantumFloat products with 0 and -1 and
 powers of fractions

---
 src/qrisp/qtypes/quantum_float.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 6d2a920..4ae7c77 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -502,14 +502,18 @@ class QuantumFloat(QuantumVariable):
         if isinstance(other, QuantumFloat):
             return q_mult(self, other)
         elif isinstance(other, (int, np.integer)):
+            if other == 0:
+                return self.duplicate()
+
             bit_shift = 0
             while not other % 2:
                 other = other >> 1
                 bit_shift += 1
 
             if self.signed or other < 0:
+                # The negative of the smallest value requires an additional bit
                 output_qf = QuantumFloat(
-                    self.msize + int(np.ceil(np.log2(abs(other)))),
+                    self.msize + int(np.ceil(np.log2(abs(other)))) + int(self.signed and other == -1),
                     self.exponent,
                     signed=True,
                 )
@@ -632,9 +636,12 @@ class QuantumFloat(QuantumVariable):
                     (temp_results[i + 1] << jasp_multiplyer)(base, temp_results[i])
                     # (temp_results[i+1] << (lambda a, b : a * b))(base, temp_results[i])
 
+            if self.signed:
+                raise Exception("Exponentiation not implemented for signed QuantumFloats")
+
             temp_results = [QuantumFloat((i + 1) * self.size) for i in range(power)]
 
-            res = QuantumFloat(self.size * power)
+            res = QuantumFloat(self.size * power, self.exponent * power)
             with conjugate(power_conjugator)(self, power, temp_results):
                 cx(temp_results[-1], res)
 
-- 
2.43.0


From a2e2f6d0e9a024ab6c6561860289443dd23b4c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:44 +0000
Subject: [PATCH 33/83] fix: extend registers at the right end in in-place
 multiplication

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 0f5eef2..72b91c0 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1037,9 +1037,13 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
     if mult_int != 1:
         if treat_overflow:
             extension_size = int(np.ceil(np.log2(abs(mult_int))))
-            qf.extend(extension_size, position=qf.size - 1)
             if qf.signed:
+                # The negative of the smallest value requires an additional bit
+                extension_size += int(mult_int == -1)
+                qf.extend(extension_size, position=qf.size - 1)
                 cx(qf[-1], qf[-1 - extension_size : -1])
+            else:
+                qf.extend(extension_size, position=qf.size)
 
         from qrisp.alg_primitives.arithmetic.SBP_arithmetic import QFT_inpl_mult
 
-- 
2.43.0


From c8e30a83f0abe54e6c76d78bd8abdef3ad6cbd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:44 +0000
Subject: [PATCH 34/83] fix: allow division of numbers smaller than the
 divisor's resolution

---
 src/qrisp/alg_primitives/arithmetic/ripple_division.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/ripple_division.py b/src/qrisp/alg_primitives/arithmetic/ripple_division.py
index 39ee0f7..4e47477 100644
--- a/src/qrisp/alg_primitives/arithmetic/ripple_division.py
+++ b/src/qrisp/alg_primitives/arithmetic/ripple_division.py
@@ -82,7 +82,7 @@ def q_int_div(numerator, divisor, adder="thapliyal", n=None, log_output=True):
     # We need one additional bit (why?)
 
     if n is None:
-        n = int(numerator.mshape[1] - divisor.exponent) + 1
+        n = max(int(numerator.mshape[1] - divisor.exponent) + 1, 1)
 
     # The quotient bits will successively be calculated/
     # added starting at the most significant bit.
-- 
2.43.0


From 8a239783756df7b90f29f16f9c25c322bf85e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:44 +0000
Subject: [PATCH 35/83] fix: use plain Toffolis on occupied targets in the
 controlled Gidney adder

---
 .../alg_primitives/arithmetic/adders/gidney_adder.py   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
index bcdefe7..7c47522 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
@@ -267,9 +267,9 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
     # MSB carry-out and sum.
     # The carry from position n-2 toggles b_qbs[n-1].
     if ctrl is not None:
-        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1], method="gidney")
+        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1])
         if c_out_qb is None:
-            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1], method="gidney")
+            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1])
     # When c_out_qb is None:  b_qbs[n-1] is b's MSB
     #   — both the carry and a_qbs[n-1] contribute (full b += a).
     # When c_out_qb is not None:  c_out_qb was appended to b_qbs,
@@ -290,7 +290,7 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
         if ctrl is not None:
             # ctrl is already in the qubit list, so CustomControlEnvironment
             # takes the targeting_control=True path (no double-add).
-            mcx([ctrl, a_qbs[i]], b_qbs[i], method="gidney")
+            mcx([ctrl, a_qbs[i]], b_qbs[i])
             cx(gidney_anc[i - 1], a_qbs[i])
             cx(gidney_anc[i - 1], b_qbs[i])
         else:
@@ -484,7 +484,7 @@ def gidney_adder(
     if c_in_qb is not None:
         with control(n <= 1):
             if ctrl is not None:
-                mcx([ctrl, c_in_qb], b_qbs[0], method="gidney")
+                mcx([ctrl, c_in_qb], b_qbs[0])
             else:
                 cx(c_in_qb, b_qbs[0])
 
@@ -498,7 +498,7 @@ def gidney_adder(
     # The carry chain handles positions 1 .. n-1; the least-significant
     # bit is the only remaining XOR not yet performed.
     if ctrl is not None:
-        mcx([ctrl, a_qbs[0]], b_qbs[0], method="gidney")
+        mcx([ctrl, a_qbs[0]], b_qbs[0])
     else:
         cx(a_qbs[0], b_qbs[0])
 
-- 
2.43.0


From 5990cd51909d2aad2a21d25f7a436deded9d7f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:41 +0000
Subject: [PATCH 36/83] fix: keep the symbols of replacement expressions when
 binding parameters

---
 src/qrisp/circuit/operation.py       | 15 +++++++++++++--
 src/qrisp/circuit/quantum_circuit.py |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 0dead06..35a02a8 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -412,7 +412,7 @@ class Operation:
 
         res = self.copy()
         res.params = new_params
-        res.abstract_params = set(self.abstract_params) - set(subs_dic.keys())
+        res.abstract_params = remaining_symbols(self.abstract_params, subs_dic)
         # The copy must not reuse what was computed for the replaced symbols
         for attr in ("lambdified_params", "unitary", "unitary_array"):
             res.__dict__.pop(attr, None)
@@ -570,6 +570,17 @@ class U3Gate(Operation):
         # )
 
 
+# Returns the symbols that are left after the symbols in abstract_params have been
+# replaced - these come from replacing symbols by expressions
+def remaining_symbols(abstract_params, subs_dic):
+    res = set()
+    for symb in abstract_params:
+        value = subs_dic.get(symb, symb)
+        if isinstance(value, Expr):
+            res = res.union(value.free_symbols)
+    return res
+
+
 pi = float(np.pi)
 
 
@@ -821,7 +832,7 @@ class PTControlledOperation(Operation):
             res.definition = self.definition.bind_parameters(subs_dic)
         res.base_operation = self.base_operation.bind_parameters(subs_dic)
         res.params = res.base_operation.params
-        res.abstract_params = set(self.abstract_params) - set(subs_dic.keys())
+        res.abstract_params = remaining_symbols(self.abstract_params, subs_dic)
 
         return res
 
diff --git a/src/qrisp/circuit/quantum_circuit.py b/src/qrisp/circuit/quantum_circuit.py
index 8f4a4df..c3a479e 100644
--- a/src/qrisp/circuit/quantum_circuit.py
+++ b/src/qrisp/circuit/quantum_circuit.py
@@ -1120,7 +1120,7 @@ class QuantumCircuit:
 
             subs_circ.data.append(Instruction(op, ins.qubits, ins.clbits))
 
-        subs_circ.abstract_params = set()
+        subs_circ.abstract_params = set().union(*(ins.op.abstract_params for ins in subs_circ.data))
         return subs_circ
 
     def to_latex(self, **kwargs) -> str:
-- 
2.43.0


From 40119da9f611fc79ecc12f735920e6f5c8fb5504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:41 +0000
Subject: [PATCH 37/83] fix: carry lookahead adder without T-depth reduction
 for small radix and short addends

---
 .../adders/qcla/classical_quantum/cq_sum_path.py          | 8 ++++++--
 .../adders/qcla/quantum_quantum/qq_qcla_adder.py          | 2 +-
 .../arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py | 8 +++-----
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
index d8fe76e..bf7eb13 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
@@ -40,11 +40,15 @@ def cq_sum_path(a, b, c, R, ctrl=None):
         # https://arxiv.org/abs/quant-ph/0406142
         # We can use the formula
         # S = A (+) B (+) C
-        cx(c[:-1], b[1:])
+        for i in range(len(c)):
+            cx(c[i], b[i + 1])
 
         for i in range(len(a)):
             if a[i] == "1":
-                x(b)
+                if ctrl is None:
+                    x(b[i])
+                else:
+                    cx(ctrl, b[i])
     else:
         # Execute addition using the corresponding carry values
         for i in range(len(c) + 1):
diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
index d1337ec..86bb9af 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
@@ -84,7 +84,7 @@ def qq_qcla(a, b, radix_base=2, radix_exponent=1, t_depth_reduction=True):
         x(b)
 
     # In the case R = 1 we can use automatic uncomputation which seems to perform better
-    if R == 1:
+    if R == 1 and t_depth_reduction:
         c.uncompute()
         return
     # Delete c
diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
index 5308fe1..9886cd0 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
@@ -19,7 +19,8 @@ def qq_sum_path(a, b, c, R):
         # https://arxiv.org/abs/quant-ph/0406142
         # We can use the formula
         # S = A (+) B (+) C
-        cx(c[:-1], b[1:])
+        for i in range(len(c)):
+            cx(c[i], b[i + 1])
         cx(a, b[: len(a)])
     else:
         i = 0
@@ -68,10 +69,7 @@ def qq_sum_path(a, b, c, R):
                 continue
 
             # Perform incrementation function
-            if R * j == 0:
-                lin_incr(b_block, c_out=c[j])
-            else:
-                lin_incr(b_block, c_in=c[j - 1], c_out=c[j])
+            lin_incr(b_block, c_in=c[j - 1])
 
 
 # This function is a version of the sum path that requires no uncomputation after
-- 
2.43.0


From 9a664dc373def080ed6ceee81e26f916297ca664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:41 +0000
Subject: [PATCH 38/83] fix: Thapliyal adder for one and two qubits

---
 .../alg_primitives/arithmetic/adders/thapliyal_adder.py     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
index fd465c2..808b4a7 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
@@ -46,12 +46,16 @@ def thapliyal_procedure(qc, qubit_list_1, qubit_list_2, output_qubit):
 
     n = len(qubit_list_1)
 
+    if n == 0:
+        return
+
     # Step 1
     for i in range(1, n):
         qc.cx(qubit_list_1[i], qubit_list_2[i])
 
     # Step 2
-    qc.cx(qubit_list_1[-1], output_qubit)
+    if n > 1:
+        qc.cx(qubit_list_1[-1], output_qubit)
 
     for i in range(n - 2, 0, -1):
         qc.cx(qubit_list_1[i], qubit_list_1[i + 1])
-- 
2.43.0


From 3d58fd37a7048f43e26bc8ae4f463498c88c0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:41 +0000
Subject: [PATCH 39/83] fix: controlled Cuccaro adder writes its carry only
 when the control is set

---
 src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index dade943..a3710a4 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -152,7 +152,10 @@ def cuccaro_adder(
 
     # cnot
     if c_out is not None:
-        cx(a[-1], ancilla2)
+        if ctrl is None:
+            cx(a[-1], ancilla2)
+        else:
+            mcx([ctrl, a[-1]], ancilla2)
 
     if ctrl is None:
         # iterator uma gate application
-- 
2.43.0


From 129a1f4da7bcf254d6ccdb6b72ff26e465c50808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:38 +0000
Subject: [PATCH 40/83] fix: Cuccaro adder on lists of qubits and oversized
 constants

---
 .../arithmetic/adders/cuccaro_adder.py        | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index a3710a4..c198ed4 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -20,7 +20,7 @@ import jax.numpy as jnp
 from qrisp.circuit import Qubit
 from qrisp.core import QuantumVariable, cx, mcx, x
 from qrisp.environments import conjugate, custom_control
-from qrisp.jasp import check_for_tracing_mode, jlen, jrange
+from qrisp.jasp import DynamicQubitArray, check_for_tracing_mode, jlen, jrange
 from qrisp.misc import int_encoder
 from qrisp.qtypes import QuantumBool, QuantumFloat
 
@@ -85,10 +85,18 @@ def cuccaro_adder(
     {9: 1.0}
 
     """
+    quantum_types = (QuantumVariable, DynamicQubitArray, list)
+
+    if not isinstance(b, quantum_types):
+        raise ValueError("The second argument must be of type QuantumVariable.")
+
     # convert the classical input to a quantum input
-    if not isinstance(a, QuantumVariable):
+    if not isinstance(a, quantum_types):
         # create a QuantumFloat of the same size as the other quantum input
-        q_a = b.duplicate()
+        q_a = QuantumFloat(jlen(b))
+
+        if not check_for_tracing_mode():
+            a = a % (1 << jlen(b))
 
         with conjugate(int_encoder)(q_a, a):
             cuccaro_adder(q_a, b, c_in=c_in, c_out=c_out, ctrl=ctrl)
@@ -98,13 +106,10 @@ def cuccaro_adder(
         q_a.delete()
         return
 
-    if not isinstance(b, QuantumVariable):
-        raise ValueError("The second argument must be of type QuantumVariable.")
-
     # when the inputs are of unequal length
     # pad the size of the input with the smaller size
-    dim_a = a.size
-    dim_b = b.size
+    dim_a = jlen(a)
+    dim_b = jlen(b)
 
     max_size = jnp.maximum(dim_a, dim_b)
 
-- 
2.43.0


From e6e01fdfb68bb6d5410e78b1affa3ce247ead98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:38 +0000
Subject: [PATCH 41/83] fix: reduce classical factors of QuantumModulus and
 keep the Montgomery shift of products

---
 src/qrisp/qtypes/quantum_modulus.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_modulus.py b/src/qrisp/qtypes/quantum_modulus.py
index e057abc..577fae6 100644
--- a/src/qrisp/qtypes/quantum_modulus.py
+++ b/src/qrisp/qtypes/quantum_modulus.py
@@ -407,12 +407,19 @@ class QuantumModulus(QuantumFloat):
                 cq_montgomery_multiply,
             )
 
+            if not isinstance(self.modulus, BigInteger) and not isinstance(other, BigInteger):
+                other = other % self.modulus
+
             shift = best_montgomery_shift(other, self.modulus)
             if isinstance(self.modulus, BigInteger):
                 if not isinstance(other, BigInteger):
                     other = _coerce_bigint_operand(other, self.modulus)
-                return cq_montgomery_multiply(other.get_larger(), self, self.modulus.get_larger(), shift)
-            return cq_montgomery_multiply(other, self, self.modulus, shift)
+                res = cq_montgomery_multiply(other.get_larger(), self, self.modulus.get_larger(), shift)
+            else:
+                res = cq_montgomery_multiply(other, self, self.modulus, shift)
+            # The product has the same Montgomery shift as the quantum factor
+            res.m = self.m
+            return res
         else:
             raise TypeError(f"Quantum modular multiplication with type {type(other)} not implemented")
 
@@ -436,6 +443,9 @@ class QuantumModulus(QuantumFloat):
             if isinstance(other, np.integer):
                 other = int(other)
 
+            if not isinstance(self.modulus, BigInteger) and not isinstance(other, BigInteger):
+                other = other % self.modulus
+
             shift = best_montgomery_shift(other, self.modulus)
             if isinstance(self.modulus, BigInteger):
                 if not isinstance(other, BigInteger):
-- 
2.43.0


From 0a5110fff988c851aaa27397d00c5241300dfd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:07:44 +0000
Subject: [PATCH 42/83] fix: sum the outcomes with equal labels in
 multi_measurement

---
 src/qrisp/interface/measurement_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/interface/measurement_result.py b/src/qrisp/interface/measurement_result.py
index 10e81c3..536a143 100644
--- a/src/qrisp/interface/measurement_result.py
+++ b/src/qrisp/interface/measurement_result.py
@@ -429,7 +429,7 @@ class MultiMeasurementResult(LazyDict):
 
             outcome = tuple(labels)
             try:
-                new_counts[outcome] = count / total
+                new_counts[outcome] = new_counts.get(outcome, 0) + count / total
             except TypeError as exc:
                 raise TypeError(
                     "Tried to create measurement outcome dic for QuantumVariable with unhashable labels"
-- 
2.43.0


From 49cce26e47ffcdb25aec4646e4d418752649664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:33:25 +0000
Subject: [PATCH 43/83] fix: keep the excess bits in the xor of variables of
 different sizes

---
 src/qrisp/core/quantum_variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index ed7f7f8..0ae2ebf 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -392,6 +392,12 @@ class QuantumVariable:
             cx(self[i], and_res[i])
             cx(other[i], and_res[i])
 
+        for i in range(min(len(self), len(other)), len(self)):
+            cx(self[i], and_res[i])
+
+        for i in range(min(len(self), len(other)), len(other)):
+            cx(other[i], and_res[i])
+
         return and_res
 
     def __lshift__(self, other):
-- 
2.43.0


From 42c1075c3e27f8930bf7ae35f7c8029c2a3812a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:33:25 +0000
Subject: [PATCH 44/83] fix: do not flip the operands of the disjunction of
 QuantumBools

---
 src/qrisp/qtypes/quantum_bool.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_bool.py b/src/qrisp/qtypes/quantum_bool.py
index f62681e..e7e6807 100644
--- a/src/qrisp/qtypes/quantum_bool.py
+++ b/src/qrisp/qtypes/quantum_bool.py
@@ -154,13 +154,7 @@ class QuantumBool(QuantumVariable):
 
         or_qbl = QuantumBool()
 
-        x(self)
-        x(other)
-
-        mcx(self.reg + other.reg, or_qbl[0])
-
-        x(self)
-        x(other)
+        mcx(self.reg + other.reg, or_qbl[0], ctrl_state=0)
 
         x(or_qbl)
 
-- 
2.43.0


From 9628841d7c2b32001e686eaf54745e7661d97839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:33:26 +0000
Subject: [PATCH 45/83] fix: equality of numbers with different ranges

---
 src/qrisp/alg_primitives/arithmetic/comparisons.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/comparisons.py b/src/qrisp/alg_primitives/arithmetic/comparisons.py
index 0f7c872..29ea818 100644
--- a/src/qrisp/alg_primitives/arithmetic/comparisons.py
+++ b/src/qrisp/alg_primitives/arithmetic/comparisons.py
@@ -225,8 +225,16 @@ def equal(qf_0, qf_1):
             for i in jrange(d):
                 cx(qf_1[i + l - e1], qf_0[i + l - e0])
 
+            # The bits beyond the overlap have to agree with the sign.
+            if qf_1.signed and qf_0.signed:
+                for i in jrange(jnp.maximum(r - e0, 0), m0):
+                    cx(qf_1.sign(), qf_0[i])
+                for i in jrange(jnp.maximum(r - e1, 0), m1):
+                    cx(qf_1.sign(), qf_1[i])
+
         mcx_qubits += qf_1.reg[: l - e1]
-        mcx_qubits += qf_1.reg[e0 + m0 - e1 : e1 + m1 - e1]
+        # If qf_1 starts above the end of qf_0, only zero can be equal.
+        mcx_qubits += qf_1.reg[jnp.maximum(e0 + m0 - e1, 0) : m1 + (e0 + m0 < e1)]
 
         with conjugate(conjugator)(qf_0, qf_1):
             mcx(mcx_qubits, eq_qbl, ctrl_state=0)
-- 
2.43.0


From 5f2ccab0e3432a799670bbc07d344b2b31015af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:14 +0000
Subject: [PATCH 46/83] fix: treat phase tolerant controlled swaps as phase
 tolerant

---
 src/qrisp/circuit/operation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 35a02a8..dcc92e5 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -354,6 +354,10 @@ class Operation:
         if isinstance(self, PTControlledOperation):
             res_num_ctrl_qubits += len(self.controls)
 
+        # The definition of a controlled swap contains an X gate with one more control
+        if self.name == "swap":
+            res_num_ctrl_qubits += 1
+
         # Check if the method is phase tolerant
         if (method.find("pt") != -1 or method.find("gidney") != -1) and res_num_ctrl_qubits != 1:
             return PTControlledOperation(self, num_ctrl_qubits, ctrl_state=ctrl_state, method=method)
-- 
2.43.0


From 110390dd89294dceaaa5087e2cfe778cb2c3910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:29 +0000
Subject: [PATCH 47/83] fix: refuse all indices beyond the bounds of a
 QuantumArray

---
 src/qrisp/core/quantum_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 81f8b94..3b47a74 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -262,6 +262,12 @@ class QuantumArray:
         if not isinstance(key, tuple):
             key = (key,)
 
+        # Jax clamps indices which are out of bounds
+        if not any(index is None or index is Ellipsis for index in key):
+            for index, length in zip(key, self.shape):
+                if isinstance(index, (int, np.integer)) and not -length <= index < length:
+                    raise IndexError(f"Index {key} out of bounds for QuantumArray with shape {self.shape}")
+
         # Retrieve the index address
         # This can either be an integer or an array slice, depending on what
         # the type of key is
-- 
2.43.0


From 7c942ce8b6008ecb5ec72b030b2f3d51cdd2f54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:54 +0000
Subject: [PATCH 48/83] fix: concatenate, duplicate and delete views of
 QuantumArrays

---
 src/qrisp/core/quantum_array.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 3b47a74..a4660ce 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -587,7 +587,7 @@ class QuantumArray:
         if check_for_tracing_mode():
             self.qs.clear_qubits(self.qb_array)
         else:
-            for i in range(self.size):
+            for i in self.ind_array.flatten():
                 self.qv_list[i].delete(verify=verify)
 
     def measure(self):
@@ -967,7 +967,10 @@ class QuantumArray:
 
         res = copy.copy(self)
 
-        ind_array_other_shifted = other.ind_array + self.size
+        if check_for_tracing_mode():
+            ind_array_other_shifted = other.ind_array + self.qb_array.size // self.qtype_size
+        else:
+            ind_array_other_shifted = other.ind_array + len(self.qv_list)
 
         concat_ind_array = jnp.concatenate((self.ind_array, ind_array_other_shifted), axis=axis)
 
@@ -1038,8 +1041,10 @@ class QuantumArray:
             if init:
                 from qrisp import cx
 
-                for i in jrange(self.size * self.qtype_size):
-                    cx(self.qb_array[i], res.qb_array[i])
+                flat_ind_array = self.ind_array.flatten()
+                for i in jrange(self.size):
+                    for j in jrange(self.qtype_size):
+                        cx(self.qb_array[flat_ind_array[i] * self.qtype_size + j], res.qb_array[i * self.qtype_size + j])
 
         else:
             if qs is None:
@@ -1048,8 +1053,10 @@ class QuantumArray:
                 res.qs = qs
 
             res.qv_list = []
-            for i in range(self.size):
-                res.qv_list.append(self.qv_list[i].duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
+            for qv in self:
+                res.qv_list.append(qv.duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
+
+        res.ind_array = jnp.arange(self.size).reshape(self.shape)
 
         return res
 
-- 
2.43.0


From 5b29b013ef05d687d5933048b28ff5bc16b42991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:55 +0000
Subject: [PATCH 49/83] fix: correct the phases of multi-bit gray logic
 synthesis

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index a14bfd6..8a15e5b 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -581,6 +581,8 @@ def gray_logic_synth(input_var, output_var, tt, phase_tolerant=False, lin_solve=
     input_var_dupl.qs.data = []
 
     if not phase_tolerant:
+        # The phase synthesis expects the first qubit to be the most significant one
+        residual_phases = residual_phases.reshape(tt.bit_amount * [2]).transpose().flatten()
         gray_phase_synth(input_var_dupl, residual_phases)
 
     qc.data.extend(input_var_dupl.qs.data)
-- 
2.43.0


From 893fa0d47d546387c6736f53e0658c8e72763cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:02 +0000
Subject: [PATCH 50/83] fix: address the qubits of synthesized truth tables in
 register order

---
 .../alg_primitives/logic_synthesis/truth_tables.py     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
index 41420ac..9b07702 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
@@ -215,7 +215,15 @@ class TruthTable:
         # input_var.qs.data[-1].op.tt = self
         # input_var.qs.data[-1].op.logic_synth_method = method
 
-        input_var.qs.data[-1].op = LogicSynthGate(input_var.qs.data[-1].op, self, phase_tolerant=method)
+        # The generated instruction might have a different qubit order or skip qubits
+        # that are irrelevant for the table
+        instr = input_var.qs.data.pop()
+        qubits = list(input_var.reg) + list(output_var.reg)
+
+        qc = QuantumCircuit(len(qubits))
+        qc.append(instr.op, [qc.qubits[qubits.index(qb)] for qb in instr.qubits])
+
+        input_var.qs.append(LogicSynthGate(qc.to_gate(), self, phase_tolerant=method), qubits)
 
     def gate_synth(self, method="best", inv=False):
         from qrisp.core import QuantumSession, QuantumVariable
-- 
2.43.0


From f19f09a6889867d18c3cf3a0a3edaa2836eddf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:15:59 +0000
Subject: [PATCH 51/83] fix: control gray phase synthesis consistently with its
 definition

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 8a15e5b..e8de9f8 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -434,7 +434,8 @@ class GraySynthGate(Operation):
             if i != ctrl_state:
                 target_phases_new += [0] * len(self.target_phases)
             else:
-                target_phases_new += list(self.target_phases)
+                # The phases are synthesized relative to the phase of the first state
+                target_phases_new += [x - self.target_phases[0] for x in self.target_phases]
 
         tmp = GraySynthGate(target_phases_new, phase_tolerant="pt" in str(method))
 
-- 
2.43.0


From 4a4101277a5351235e0b22cd66705cedc16f3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:29 +0000
Subject: [PATCH 52/83] fix: accept all control states for gray phase synthesis

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index e8de9f8..6e31628 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -426,12 +426,15 @@ class GraySynthGate(Operation):
 
     def control(self, num_ctrl_qubits=1, ctrl_state=-1, method=None):
 
-        ctrl_state = int(ctrl_state, 2)
+        if ctrl_state == -1:
+            ctrl_state = num_ctrl_qubits * "1"
+        elif not isinstance(ctrl_state, str):
+            ctrl_state = bin(ctrl_state)[2:].zfill(num_ctrl_qubits)[::-1]
 
         target_phases_new = []
 
         for i in range(2**num_ctrl_qubits):
-            if i != ctrl_state:
+            if i != int(ctrl_state, 2):
                 target_phases_new += [0] * len(self.target_phases)
             else:
                 # The phases are synthesized relative to the phase of the first state
-- 
2.43.0


From d377b1d61622e0c9e76c06686af8c399141125bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:22:50 +0000
Subject: [PATCH 53/83] fix: traverse parities of the gray synthesis in single
 bit steps

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 6e31628..6a94665 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -232,12 +232,12 @@ def single_qb_traversal(locations, bit_amount):
     # Solve Hamming TSP to get traversal sequence
     tr_seq = hamming_tsp(locations, bit_amount)
 
-    # Make sure 0 appears last
+    # Make sure 0 appears first and last. Only a single bit may change in each step
     if tr_seq[-1] != 0:
-        tr_seq = tr_seq + [0]
+        tr_seq = tr_seq + hamming_movement(tr_seq[-1], 0, bit_amount)
 
     if tr_seq[0] != 0:
-        tr_seq = [0] + tr_seq
+        tr_seq = [0] + hamming_movement(0, tr_seq[0], bit_amount) + tr_seq[1:]
 
     # Turn into binaries
     tr_seq_bin = [int_as_array(x, bit_amount) for x in tr_seq]
-- 
2.43.0


From 8166d44ad4bf30113a635e83e645d88e275cdc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:32 +0000
Subject: [PATCH 54/83] fix: allow in-place addition and subtraction of a qubit
 operator with itself

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index c2c34cf..32f5eb3 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -391,7 +391,7 @@ class QubitOperator(Hamiltonian):
         if not isinstance(other, QubitOperator):
             raise TypeError("Cannot add QubitOperator and " + str(type(other)))
 
-        for term, coeff in other.terms_dict.items():
+        for term, coeff in list(other.terms_dict.items()):
             self.terms_dict[term] = self.terms_dict.get(term, 0) + coeff
             if abs(self.terms_dict[term]) < threshold:
                 del self.terms_dict[term]
@@ -412,7 +412,7 @@ class QubitOperator(Hamiltonian):
         if not isinstance(other, QubitOperator):
             raise TypeError("Cannot add QubitOperator and " + str(type(other)))
 
-        for term, coeff in other.terms_dict.items():
+        for term, coeff in list(other.terms_dict.items()):
             self.terms_dict[term] = self.terms_dict.get(term, 0) - coeff
             if abs(self.terms_dict[term]) < threshold:
                 del self.terms_dict[term]
-- 
2.43.0


From de4d3e6423f56c9c6e05e368bb9710a986eb5797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:32 +0000
Subject: [PATCH 55/83] fix: keep complex coefficients in the matrix of an
 identity operator

---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 32f5eb3..89f0b1d 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -707,7 +707,7 @@ class QubitOperator(Hamiltonian):
                 factor_amount = max(participating_indices) + 1
             else:
                 res = 1
-                M = sp.csr_matrix((1, 1))
+                M = sp.csr_matrix((1, 1), dtype=complex)
                 for coeff in coeffs:
                     res *= coeff
                 if coeffs:
-- 
2.43.0


From b23ec6f6f49dd0bbc37165b61efb41dd886af101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:32 +0000
Subject: [PATCH 56/83] fix: return an operator from to_pauli for complex
 multiples of the identity

---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 89f0b1d..2a8bc4d 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -780,7 +780,7 @@ class QubitOperator(Hamiltonian):
         res = 0
         for term, coeff in self.terms_dict.items():
             res += coeff * term.to_pauli()
-        if isinstance(res, (float, int)):
+        if not isinstance(res, QubitOperator):
             return QubitOperator({QubitTerm({}): res})
         return res
 
-- 
2.43.0


From 5a6f138212811355c69f0536e65f955c4bf364cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:32 +0000
Subject: [PATCH 57/83] fix: commutator of qubit operators without terms

---
 src/qrisp/operators/qubit/qubit_operator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 2a8bc4d..b50de78 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -513,6 +513,9 @@ class QubitOperator(Hamiltonian):
 
 
         """
+        if not self.terms_dict or not other.terms_dict:
+            return QubitOperator({})
+
         res = 0
 
         for term_self, coeff_self in self.terms_dict.items():
-- 
2.43.0


From 2e54aad1449745f54ae7bc7d6ed170e894547e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:32 +0000
Subject: [PATCH 58/83] fix: ground state energy of identity operators and of
 ladder terms with imaginary coefficients

---
 src/qrisp/operators/qubit/qubit_operator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index b50de78..893a50d 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -909,14 +909,14 @@ class QubitOperator(Hamiltonian):
         """
         from scipy.sparse.linalg import eigsh
 
-        hamiltonian = self.hermitize()
-        hamiltonian = hamiltonian.eliminate_ladder_conjugates()
-        hamiltonian = hamiltonian.apply_threshold(0)
+        M = self.hermitize().apply_threshold(0).to_sparse_matrix()
 
-        if len(hamiltonian.terms_dict) == 0:
+        if M.count_nonzero() == 0:
             return 0
 
-        M = self.hermitize().to_sparse_matrix()
+        if M.shape[0] <= 8:
+            return np.linalg.eigvalsh(M.toarray())[0]
+
         # Compute the smallest eigenvalue
         eigenvalues, _ = eigsh(M, k=1, which="SA")  # 'SA' stands for smallest algebraic
         E = eigenvalues[0]
-- 
2.43.0


From 373dd67ef87af41d733f1922a967fd7866abdf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:17 +0000
Subject: [PATCH 59/83] fix: rotate Y factors with SX now that sx_dg is the
 adjoint

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 893a50d..4a09613 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -21,7 +21,7 @@ import jax.numpy as jnp
 import numpy as np
 import sympy as sp
 
-from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx_dg
+from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian import Hamiltonian
 from qrisp.operators.hamiltonian_tools import group_up_iterable
@@ -1172,7 +1172,7 @@ class QubitOperator(Hamiltonian):
                             h(qarg[j])
 
                         if factor_dict[j] == "Y":
-                            sx_dg(qarg[j])
+                            sx(qarg[j])
 
                     new_factor_dict[j] = "Z"
 
-- 
2.43.0


From ce73a5c3f7150c6dfbb3ae4230f112edb5d4ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:55:46 +0000
Subject: [PATCH 60/83] fix: simulate every ladder group once with the
 commuting Trotterization

---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 4a09613..f76cd4c 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1826,7 +1826,7 @@ class QubitOperator(Hamiltonian):
                 for com_group in commuting_groups:
                     qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b))
                     for qw_group in qw_groups:
-                        with conjugate(com_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
+                        with conjugate(qw_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
                             intersect_groups = diagonal_operator.group_up(lambda a, b: not a.intersect(b))
                             for intersect_group in intersect_groups:
                                 for term, coeff in intersect_group.terms_dict.items():
-- 
2.43.0


From 14c09eb1e57a08684aa1c57983486cf8619db244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:55:46 +0000
Subject: [PATCH 61/83] fix: allow sessions to merge inside an
 IterationEnvironment

---
 src/qrisp/environments/iteration_environment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/environments/iteration_environment.py b/src/qrisp/environments/iteration_environment.py
index 36bf057..cdd06c3 100644
--- a/src/qrisp/environments/iteration_environment.py
+++ b/src/qrisp/environments/iteration_environment.py
@@ -136,13 +136,17 @@ class IterationEnvironment(QuantumEnvironment):
 
     def __enter__(self):
 
-        self.inital_qvs = set(self.env_qs.qv_list)
+        active_sessions = [qs() for qs in self.env_qs.get_active_quantum_sessions()]
+        self.inital_qvs = set(qv for qs in active_sessions if qs is not None for qv in qs.qv_list)
 
         QuantumEnvironment.__enter__(self)
 
     def __exit__(self, exception_type, exception_value, traceback):
 
-        if set(self.env_qs.qv_list) != self.inital_qvs and self.iteration_amount > 1:
+        created = set(self.env_qs.qv_list) - self.inital_qvs
+        deleted = [qv for qv in self.inital_qvs if qv.is_deleted()]
+
+        if (created or deleted) and self.iteration_amount > 1:
             if exception_value is None:
                 raise Exception("Tried to invoke IterationEnvironment with code creating/deleting QuantumVariables")
 
-- 
2.43.0


From 0bfcde1a8f52bd27e93fc8b1d6c05ad0b2c1d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:55:46 +0000
Subject: [PATCH 62/83] fix: take at least one sample per group in traced
 expectation values

---
 src/qrisp/operators/qubit/jasp_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/jasp_measurement.py b/src/qrisp/operators/qubit/jasp_measurement.py
index c9a71bd..5147176 100644
--- a/src/qrisp/operators/qubit/jasp_measurement.py
+++ b/src/qrisp/operators/qubit/jasp_measurement.py
@@ -105,7 +105,7 @@ def get_jasp_measurement(
             group.change_of_basis(qv, method=diagonalisation_method)
             return qv
 
-        shots = int(shots_list[index] / precision**2)
+        shots = max(int(shots_list[index] / precision**2), 1)
         res = sample(new_state_prep, shots=shots)(state_args)
 
         samples.append(jnp.int64(res))
-- 
2.43.0


From 7e3ab396a1403fb01f9176f163676107952a945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:56:16 +0000
Subject: [PATCH 63/83] fix: request at least one shot per group in expectation
 values

---
 src/qrisp/operators/qubit/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/measurement.py b/src/qrisp/operators/qubit/measurement.py
index 98fc7b6..c0ab5db 100644
--- a/src/qrisp/operators/qubit/measurement.py
+++ b/src/qrisp/operators/qubit/measurement.py
@@ -198,7 +198,7 @@ class QubitOperatorMeasurement:
             self.change_of_basis_gates,
             self.shots_list,
         ):
-            shots = int(shots_base / precision**2)
+            shots = max(int(shots_base / precision**2), 1)
 
             qubits = [qubit_list[j] for j in range(gate.num_qubits)]
 
-- 
2.43.0


From e2af58a429c2b18e5558f675db1787d8503ecdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:56:16 +0000
Subject: [PATCH 64/83] fix: keep imaginary ladder coefficients in expectation
 values and simulation

---
 src/qrisp/operators/qubit/qubit_operator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index f76cd4c..396c71d 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -883,6 +883,9 @@ class QubitOperator(Hamiltonian):
 
     def eliminate_ladder_conjugates(self):
         new_terms_dict = {}
+        # Imaginary parts of ladder coefficients belong to i*(T - T^dagger)
+        # and don't combine with the conjugate term, express them via Paulis
+        pauli_part = QubitOperator({})
         for term, coeff in self.terms_dict.items():
             for factor in term.factor_dict.values():
                 if factor in ["A", "C"]:
@@ -891,11 +894,18 @@ class QubitOperator(Hamiltonian):
                 new_terms_dict[term] = coeff
                 continue
 
+            if np.imag(coeff) != 0:
+                pauli_part += 1j * np.imag(coeff) * term.to_pauli()
+                coeff = np.real(coeff)
+
             if term.adjoint() in new_terms_dict:
                 new_terms_dict[term.adjoint()] += coeff
             else:
                 new_terms_dict[term] = coeff
 
+        for term, coeff in pauli_part.terms_dict.items():
+            new_terms_dict[term] = new_terms_dict.get(term, 0) + np.real(coeff)
+
         return QubitOperator(new_terms_dict).apply_threshold(0)
 
     def ground_state_energy(self):
-- 
2.43.0


From 2100314d14312e4d398e6d4367bf4ab79f66b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:19 +0000
Subject: [PATCH 65/83] fix: delete the ancillae of controlled term simulations

---
 src/qrisp/operators/qubit/qubit_term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 32e1571..9c5e08f 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -469,7 +469,7 @@ class QubitTerm:
                 else:
                     rz(coeff * 2, qv[anchor_index])
 
-        if len(projector_indices) >= 2:
+        if len(projector_qubits) >= 2:
             # Delete ancilla
             hs_anc_qbl.delete()
             balauca_ancillae.delete()
-- 
2.43.0


From d60ca51684ea1571b8b0a5797f7d038e12c5cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:46 +0000
Subject: [PATCH 66/83] fix: emit the phases of the gray synthesis in double
 precision

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 6a94665..879bee4 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -219,9 +219,8 @@ def gen_phase_shifts(target_phases):
     # Transform
     fwht(temp)
 
-    spectrum = temp
-
-    return spectrum
+    # Extended precision is only required within the transformation
+    return temp.astype(float) if isinstance(temp, np.ndarray) else temp
 
 
 # Solves the hamming tsp and turns it into a sequence of CNOT gates,
-- 
2.43.0


From d19b425a1848c9f4f33d77017d01ccc5d42ed381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:46 +0000
Subject: [PATCH 67/83] fix: keep projectors out of groups whose change of
 basis acts on their qubits

---
 src/qrisp/operators/qubit/jasp_measurement.py | 2 +-
 src/qrisp/operators/qubit/measurement.py      | 2 +-
 src/qrisp/operators/qubit/qubit_operator.py   | 2 +-
 src/qrisp/operators/qubit/qubit_term.py       | 8 ++++++++
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/operators/qubit/jasp_measurement.py b/src/qrisp/operators/qubit/jasp_measurement.py
index 5147176..d0bd655 100644
--- a/src/qrisp/operators/qubit/jasp_measurement.py
+++ b/src/qrisp/operators/qubit/jasp_measurement.py
@@ -72,7 +72,7 @@ def get_jasp_measurement(
             groups.extend(group.group_up(lambda a, b: a.ladders_agree(b) or not a.ladders_intersect(b)))
 
     elif diagonalisation_method == "commuting":
-        temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b))
+        temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b) and a.projectors_separate(b))
         groups = []
         # In order for the change of basis function (below) to work properly,
         # the ladder terms either need to completely agree or completely disagree
diff --git a/src/qrisp/operators/qubit/measurement.py b/src/qrisp/operators/qubit/measurement.py
index c0ab5db..2873944 100644
--- a/src/qrisp/operators/qubit/measurement.py
+++ b/src/qrisp/operators/qubit/measurement.py
@@ -158,7 +158,7 @@ class QubitOperatorMeasurement:
                 self.groups.extend(group.group_up(lambda a, b: a.ladders_agree(b) or not a.ladders_intersect(b)))
 
         elif diagonalisation_method == "commuting":
-            temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b))
+            temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b) and a.projectors_separate(b))
             self.groups = []
             # In order for the change of basis function (below) to work properly,
             # the ladder terms either need to completely agree or completely disagree
diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 396c71d..44e3981 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1834,7 +1834,7 @@ class QubitOperator(Hamiltonian):
 
             def trotter_step(qarg, t, steps):
                 for com_group in commuting_groups:
-                    qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b))
+                    qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b) and a.projectors_separate(b))
                     for qw_group in qw_groups:
                         with conjugate(qw_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
                             intersect_groups = diagonal_operator.group_up(lambda a, b: not a.intersect(b))
diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 9c5e08f..680aba0 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -700,6 +700,14 @@ class QubitTerm:
 
         return sign_flip == 1
 
+    def projectors_separate(self, other):
+        """Checks if no projector of one QubitTerm acts on the qubit of a Pauli factor of the other."""
+        for a, b in ((self.factor_dict, other.factor_dict), (other.factor_dict, self.factor_dict)):
+            for key, factor in a.items():
+                if factor in ["P0", "P1"] and b.get(key) in ["X", "Y", "Z"]:
+                    return False
+        return True
+
     def commute_qw(self, other):
         """Checks if two QubitTerms commute qubit-wise."""
         a = self.factor_dict
-- 
2.43.0


From b4e5e76d0bee72573ae7d3e113c60389f3c02611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:03:43 +0000
Subject: [PATCH 68/83] fix: assign signs of the commuting change of basis to
 the permuted qubits

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 44e3981..51712c3 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1244,10 +1244,10 @@ class QubitOperator(Hamiltonian):
                 # No factor (-1) occurs if H S^{-1} P S H is applied (i.e., H and S) for any P in {X,Y,Z}
 
                 s_vector = np.zeros(m, dtype=int)
-                s_vector[s_list] = 1
+                s_vector[[perm[i] for i in s_list]] = 1
                 h_vector = np.zeros(m, dtype=int)
                 h_vector[h_list] = 1
-                sh_vector = s_vector[perm] + h_vector % 2
+                sh_vector = s_vector + h_vector % 2
                 sign_vector = sh_vector @ (x_matrix[qb_indices] * z_matrix[qb_indices]) % 2
 
                 # Lower triangular part of A
-- 
2.43.0


From 2533bd871d6ebe63f72fc926383c56682cba0372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:20 +0000
Subject: [PATCH 69/83] fix: return the operator from in-place multiplication
 of fermionic operators

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index ec15357..db89652 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -500,6 +500,7 @@ class FermionicOperator(Hamiltonian):
                 res_terms_dict[curr_ladder_term] = res_terms_dict.get(curr_ladder_term, 0) + coeff1 * coeff2
 
         self.terms_dict = res_terms_dict
+        return self
 
     #
     # Miscellaneous
-- 
2.43.0


From e8b309c626076b3a1dc4503c88af255623773657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:20 +0000
Subject: [PATCH 70/83] fix: add and subtract a fermionic operator in-place
 with itself

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index db89652..0572e8d 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -450,7 +450,7 @@ class FermionicOperator(Hamiltonian):
         if not isinstance(other, FermionicOperator):
             raise TypeError("Cannot add FermionicOperator and " + str(type(other)))
 
-        for ladder_term, coeff in other.terms_dict.items():
+        for ladder_term, coeff in list(other.terms_dict.items()):
             self.terms_dict[ladder_term] = self.terms_dict.get(ladder_term, 0) + coeff
             if abs(self.terms_dict[ladder_term]) < threshold:
                 del self.terms_dict[ladder_term]
@@ -472,7 +472,7 @@ class FermionicOperator(Hamiltonian):
         if not isinstance(other, FermionicOperator):
             raise TypeError("Cannot add FermionicOperator and " + str(type(other)))
 
-        for ladder_term, coeff in other.terms_dict.items():
+        for ladder_term, coeff in list(other.terms_dict.items()):
             self.terms_dict[ladder_term] = self.terms_dict.get(ladder_term, 0) - coeff
             if abs(self.terms_dict[ladder_term]) < threshold:
                 del self.terms_dict[ladder_term]
-- 
2.43.0


From 1d8d52d4ee760dd04ad183443d314eca8cfead38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:20 +0000
Subject: [PATCH 71/83] fix: alternating ladder operators on one mode do not
 vanish when sorting fermionic terms

---
 src/qrisp/operators/fermionic/fermionic_term.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_term.py b/src/qrisp/operators/fermionic/fermionic_term.py
index dcc0b1d..4d1e0f3 100644
--- a/src/qrisp/operators/fermionic/fermionic_term.py
+++ b/src/qrisp/operators/fermionic/fermionic_term.py
@@ -127,9 +127,6 @@ class FermionicTerm:
                 if ladder_list[i][1] == ladder_list[i + 1][1]:
                     flip_sign = 0
                     break
-                if i > 1 and ladder_list[i][0] == ladder_list[i - 1][0]:
-                    flip_sign = 0
-                    break
 
         return FermionicTerm(ladder_list), flip_sign
 
-- 
2.43.0


From 150dd7310040536611f69c72754f82f4a5cd3439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:20 +0000
Subject: [PATCH 72/83] fix: compare fermionic operators in reduced form

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index 0572e8d..582deb6 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -153,7 +153,7 @@ class FermionicOperator(Hamiltonian):
             new_terms_dict[sorted_term] = flip_sign * coeff + new_terms_dict.get(sorted_term, 0)
 
         for term, coeff in list(new_terms_dict.items()):
-            if isinstance(coeff, (int, float)):
+            if isinstance(coeff, (int, float, complex)):
                 if coeff == 0:
                     del new_terms_dict[term]
 
@@ -269,7 +269,7 @@ class FermionicOperator(Hamiltonian):
             return False
 
         for term, coeff in reduced_self.terms_dict.items():
-            if term not in other.terms_dict:
+            if term not in reduced_other.terms_dict:
                 daggered_sorted_term, flip_sign = term.dagger().sort()
                 if daggered_sorted_term not in reduced_other.terms_dict:
                     return False
-- 
2.43.0


From 1d022eec1f8a9913108f7eff6fa16e3e7d170ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:20 +0000
Subject: [PATCH 73/83] fix: conjugate coefficients when merging a fermionic
 term with its conjugate

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index 582deb6..106257f 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -148,6 +148,7 @@ class FermionicOperator(Hamiltonian):
                 if daggered_sorted_term in new_terms_dict:
                     sorted_term = daggered_sorted_term
                     flip_sign = daggered_flip_sign
+                    coeff = np.conj(coeff)
 
             # Compute the new coefficient.
             new_terms_dict[sorted_term] = flip_sign * coeff + new_terms_dict.get(sorted_term, 0)
-- 
2.43.0


From 1faaa8fbdfc28dbf3687b0b64839b37fc6c0dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:20 +0000
Subject: [PATCH 74/83] fix: simulate fermionic operators with imaginary
 coefficients

---
 src/qrisp/operators/fermionic/trotterization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/operators/fermionic/trotterization.py b/src/qrisp/operators/fermionic/trotterization.py
index e50f3e9..e7f4b79 100644
--- a/src/qrisp/operators/fermionic/trotterization.py
+++ b/src/qrisp/operators/fermionic/trotterization.py
@@ -15,6 +15,8 @@
 ********************************************************************************
 """
 
+import numpy as np
+
 from qrisp import IterationEnvironment, conjugate, merge
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian_tools import group_up_iterable
@@ -26,6 +28,10 @@ def fermionic_trotterization(H, forward_evolution=True):
 
     H = H.hermitize()
     reduced_H = H.reduce(assume_hermitian=True)
+    if any(np.imag(coeff) != 0 for coeff in reduced_H.terms_dict.values()):
+        # The simulation of ladder terms is restricted to real coefficients
+        return H.to_qubit_operator().trotterization(forward_evolution=forward_evolution)
+
     groups = reduced_H.group_up(denominator=lambda a, b: a.unipolars_agree(b))
 
     def meta_group_denominator(H0, H1):
@@ -98,7 +104,7 @@ def fermionic_trotterization(H, forward_evolution=True):
             # perform the fermionic swap
             with conjugate(apply_fermionic_swaps)(qarg, swaps) as new_qarg:
                 for ferm_term in terms:
-                    coeff = reduced_H.terms_dict[ferm_term]
+                    coeff = np.real(reduced_H.terms_dict[ferm_term])
 
                     # This function permutes the indices of the fermionic term
                     qubit_operator = ferm_term.fermionic_swap(permutation).to_qubit_term()
-- 
2.43.0


From f155acad3c364b07f905b5f9e977b975f9d37ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:20 +0000
Subject: [PATCH 75/83] fix: simulate constant fermionic operators

---
 src/qrisp/operators/fermionic/trotterization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/fermionic/trotterization.py b/src/qrisp/operators/fermionic/trotterization.py
index e7f4b79..67d0534 100644
--- a/src/qrisp/operators/fermionic/trotterization.py
+++ b/src/qrisp/operators/fermionic/trotterization.py
@@ -44,7 +44,7 @@ def fermionic_trotterization(H, forward_evolution=True):
 
     def trotter_step(qarg, t, steps):
 
-        n = H.find_minimal_qubit_amount()
+        n = max(1, H.find_minimal_qubit_amount())
         qarg = [qarg[i] for i in range(n)]
 
         for group in groups:
-- 
2.43.0


From 2af94fffd0d74e9e9d43b3217a73102190bbf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:08 +0000
Subject: [PATCH 76/83] fix: leave the list of branches of a quantum switch
 unchanged

---
 src/qrisp/alg_primitives/program_control/quantum_switch.py | 4 ++--
 src/qrisp/alg_primitives/program_control/switch_case.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/program_control/quantum_switch.py b/src/qrisp/alg_primitives/program_control/quantum_switch.py
index 690dedf..e561603 100644
--- a/src/qrisp/alg_primitives/program_control/quantum_switch.py
+++ b/src/qrisp/alg_primitives/program_control/quantum_switch.py
@@ -341,10 +341,10 @@ def _q_switch_q(index, branches, *operands, branch_amount=None, method="auto", i
         elif isinstance(branches, list):
             if len(branches) % 2 != 0:
 
-                def identity(_):
+                def identity(*_):
                     pass
 
-                branches.append(identity)
+                branches = branches + [identity]
 
             if check_for_tracing_mode():
 
diff --git a/src/qrisp/alg_primitives/program_control/switch_case.py b/src/qrisp/alg_primitives/program_control/switch_case.py
index aecef1b..bf08600 100644
--- a/src/qrisp/alg_primitives/program_control/switch_case.py
+++ b/src/qrisp/alg_primitives/program_control/switch_case.py
@@ -370,10 +370,10 @@ def qswitch(operand, case, case_function, method="auto", case_amount=None, inv=F
         elif isinstance(case_function, list):
             if len(case_function) % 2 != 0:
 
-                def identity(_):
+                def identity(*_):
                     pass
 
-                case_function.append(identity)
+                case_function = case_function + [identity]
 
             if check_for_tracing_mode():
 
-- 
2.43.0


From 2e45fc5c484eb7233f9f1cb07a2c717dfd5a0dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:13:20 +0000
Subject: [PATCH 77/83] fix: allow a classical condition whose branches leave
 all values unchanged

---
 src/qrisp/jasp/program_control/prefix_control.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/jasp/program_control/prefix_control.py b/src/qrisp/jasp/program_control/prefix_control.py
index a4b15db..94ddd5a 100644
--- a/src/qrisp/jasp/program_control/prefix_control.py
+++ b/src/qrisp/jasp/program_control/prefix_control.py
@@ -341,8 +341,10 @@ def q_cond(pred, true_fun, false_fun, *operands):
 
     from qrisp.jasp import Jaspr
 
-    if (not isinstance(false_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState)) and (
-        not isinstance(true_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState)
+    # Jax forwards unchanged values around the cond, so there might be no outvars at all
+    if not false_jaxpr.jaxpr.outvars or (
+        (not isinstance(false_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState))
+        and (not isinstance(true_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState))
     ):
         eqn.invars.pop(-1)
         false_jaxpr.jaxpr.invars.pop(-1)
-- 
2.43.0


From cc8ddd08b79ead3e278270a3e9a731a82a5adb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:36:54 +0000
Subject: [PATCH 78/83] fix: allow Chebyshev and eigenvalue transformations of
 block encodings without ancillas

---
 src/qrisp/algorithms/gqsp/qet.py                 |  3 +++
 src/qrisp/block_encodings/block_encoding_base.py | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/algorithms/gqsp/qet.py b/src/qrisp/algorithms/gqsp/qet.py
index 52bb1ac..b33f495 100644
--- a/src/qrisp/algorithms/gqsp/qet.py
+++ b/src/qrisp/algorithms/gqsp/qet.py
@@ -171,6 +171,9 @@ def QET(
     phi = angles[1][::-1]
 
     def T2(*args):
+        # Without ancillas the reflection is the identity
+        if m == 0:
+            return
         with conjugate(H.unitary)(*args):
             reflection(args[:m])
         reflection(args[:m])
diff --git a/src/qrisp/block_encodings/block_encoding_base.py b/src/qrisp/block_encodings/block_encoding_base.py
index 1aafccc..2d8ade8 100644
--- a/src/qrisp/block_encodings/block_encoding_base.py
+++ b/src/qrisp/block_encodings/block_encoding_base.py
@@ -999,6 +999,11 @@ class BlockEncoding:
 
         m = len(self._anc_templates)
 
+        def reflect(args):
+            # Without ancillas the reflection is the identity
+            if m > 0:
+                reflection(args[:m])
+
         iterations = k // 2
 
         # Following https://math.berkeley.edu/~linlin/qasc/qasc_notes.pdf (page 104):
@@ -1008,18 +1013,18 @@ class BlockEncoding:
 
             def new_unitary(*args):
                 for _ in jrange(0, iterations):
-                    reflection(args[:m])
+                    reflect(args)
                     with conjugate(self.unitary)(*args):
-                        reflection(args[:m])
+                        reflect(args)
 
         else:
 
             def new_unitary(*args):
                 for _ in jrange(0, iterations):
-                    reflection(args[:m])
+                    reflect(args)
                     with conjugate(self.unitary)(*args):
-                        reflection(args[:m])
-                reflection(args[:m])
+                        reflect(args)
+                reflect(args)
                 self.unitary(*args)
 
         new_alpha = self.alpha if k == 1 else 1
-- 
2.43.0


From c9201da78063bb4ddf9b46d9990a8638dc8900b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:14 +0000
Subject: [PATCH 79/83] fix: keep the normalization of a single negative
 unitary non-negative

---
 src/qrisp/block_encodings/constructors/from_lcu.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/block_encodings/constructors/from_lcu.py b/src/qrisp/block_encodings/constructors/from_lcu.py
index 5d630f2..770cfd0 100644
--- a/src/qrisp/block_encodings/constructors/from_lcu.py
+++ b/src/qrisp/block_encodings/constructors/from_lcu.py
@@ -23,6 +23,7 @@ import numpy.typing as npt
 
 from qrisp.alg_primitives.state_preparation import prepare
 from qrisp.block_encodings.block_encoding_base import BlockEncoding
+from qrisp.core.gate_application_functions import gphase
 from qrisp.environments import conjugate, invert
 from qrisp.jasp import q_switch, qache
 from qrisp.qtypes import QuantumFloat
@@ -146,10 +147,15 @@ def build_from_lcu(
     # Block encoding of a single unitary (up to normalization)
     if m == 1:
         if np.abs(complex_coeffs[0].imag) < _TOLERANCE:
+            # The normalization factor is non-negative, the sign becomes part of the unitary
+            def signed_unitary(*args):
+                unitaries[0](*args)
+                gphase(np.pi, args[0][0])
+
             return cls(
-                complex_coeffs[0].real,
+                alpha,
                 [],
-                unitaries[0],
+                unitaries[0] if complex_coeffs[0].real >= 0 else signed_unitary,
                 num_ops=num_ops,
                 is_hermitian=is_hermitian,
             )
-- 
2.43.0


From 5f555670a883d105d16adee2c902652b9629db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:32:47 +0000
Subject: [PATCH 80/83] fix: allow singular value transformations of block
 encodings without ancillas

---
 src/qrisp/algorithms/gqsp/qsvt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/gqsp/qsvt.py b/src/qrisp/algorithms/gqsp/qsvt.py
index 5df9703..4d0ab55 100644
--- a/src/qrisp/algorithms/gqsp/qsvt.py
+++ b/src/qrisp/algorithms/gqsp/qsvt.py
@@ -20,7 +20,7 @@ from typing import TYPE_CHECKING, Literal
 from qrisp.algorithms.gqsp.gqsp_angles import qsvt_angles
 from qrisp.algorithms.gqsp.helper_functions import _rescale_poly, poly2cheb
 from qrisp.block_encodings import BlockEncoding
-from qrisp.core.gate_application_functions import h, mcx, rz
+from qrisp.core.gate_application_functions import h, mcx, rz, x
 from qrisp.environments import conjugate, invert
 from qrisp.jasp import jrange, q_cond
 from qrisp.operators import FermionicOperator, QubitOperator
@@ -188,6 +188,11 @@ def QSVT(
     m = len(A._anc_templates)
 
     def reflection(args, phase):
+        # Without ancillas the projector is the identity
+        if m == 0:
+            with conjugate(x)(args[0]):
+                rz(phase, args[0])
+            return
         qubits = sum([arg.reg for arg in args[1 : m + 1]], [])
         with conjugate(mcx)(qubits, args[0], ctrl_state=0):
             rz(phase, args[0])
-- 
2.43.0


From b09c6b3ca1c39feda95c517c720ab23bd2e208a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:32:47 +0000
Subject: [PATCH 81/83] fix: count slices with negative bounds and empty slices
 in resource estimates

---
 .../interpreter_tools/interpreters/count_ops_metric.py   | 9 +++++----
 .../interpreter_tools/interpreters/num_qubits_metric.py  | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
index 588d885..f6119d8 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
@@ -143,10 +143,11 @@ class CountOpsMetric(BaseMetric):
     def handle_slice(self, invalues, eqn, context_dic):
 
         # For the slice operation, we need to make sure, we don't go out
-        # of bounds.
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
-        return stop - start
+        # of bounds. Negative bounds count from the end.
+        size, start, stop = invalues
+        start = jnp.maximum(start + (start < 0) * size, 0)
+        stop = jnp.minimum(stop + (stop < 0) * size, size)
+        return jnp.maximum(stop - start, 0)
 
     def handle_quantum_gate(self, invalues, eqn, context_dic):
 
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
index f2a9134..a5458a5 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
@@ -182,12 +182,13 @@ class NumQubitsMetric(BaseMetric):
 
     def handle_slice(self, invalues, eqn, context_dic):
 
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
+        size, start, stop = invalues
+        start = jnp.maximum(start + (start < 0) * size, 0)
+        stop = jnp.minimum(stop + (stop < 0) * size, size)
 
         # Associate the following in context_dic:
         # QubitArray -> size
-        return stop - start
+        return jnp.maximum(stop - start, 0)
 
     def handle_reset(self, invalues, eqn, context_dic):
 
-- 
2.43.0


From 7919ee56efbfb4220192e7de8f3d10fde7184945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:40:23 +0000
Subject: [PATCH 82/83] fix: simulate sx and swap gates with stim

---
 src/qrisp/jasp/evaluation_tools/buffered_quantum_state.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/jasp/evaluation_tools/buffered_quantum_state.py b/src/qrisp/jasp/evaluation_tools/buffered_quantum_state.py
index 8b3e553..456d3bb 100644
--- a/src/qrisp/jasp/evaluation_tools/buffered_quantum_state.py
+++ b/src/qrisp/jasp/evaluation_tools/buffered_quantum_state.py
@@ -86,6 +86,12 @@ class BufferedQuantumState:
                     self.quantum_state.s(*qubit_indices)
                 elif instr.op.name == "s_dg":
                     self.quantum_state.s_dag(*qubit_indices)
+                elif instr.op.name == "sx":
+                    self.quantum_state.sqrt_x(*qubit_indices)
+                elif instr.op.name == "sx_dg":
+                    self.quantum_state.sqrt_x_dag(*qubit_indices)
+                elif instr.op.name == "swap":
+                    self.quantum_state.swap(*qubit_indices)
                 elif instr.op.name not in ["qb_alloc", "qb_dealloc"]:
                     raise Exception(f"Don't know how to simulate quantum gate {instr.op.name} with stim")
 
-- 
2.43.0


From 35c811440c94917c9a7c5704c8d304b56bda6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:55:27 +0000
Subject: [PATCH 83/83] fix: allow a classical switch whose branches leave all
 values unchanged

---
 src/qrisp/jasp/program_control/prefix_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/jasp/program_control/prefix_control.py b/src/qrisp/jasp/program_control/prefix_control.py
index 94ddd5a..801b07e 100644
--- a/src/qrisp/jasp/program_control/prefix_control.py
+++ b/src/qrisp/jasp/program_control/prefix_control.py
@@ -466,7 +466,8 @@ def _q_switch_c(index, branches, *operands):
 
     from qrisp.jasp import Jaspr
 
-    if all(
+    # Jax forwards unchanged values around the switch, so there might be no outvars at all
+    if not branch_jaxprs[0].jaxpr.outvars or all(
         [not isinstance(branch_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState) for branch_jaxpr in branch_jaxprs]
     ):
         eqn.invars.pop(-1)
-- 
2.43.0

