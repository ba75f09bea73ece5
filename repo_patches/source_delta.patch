From fce4f9fff45613b150e7e4d32703a6038a0252e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 01/53] fix: check each control level against the dimension of
 its own control qudit

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index bfe3e35..cfb8370 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -123,7 +123,7 @@ class Gate(Instruction):
             raise IndexError(msg)
         # if isinstance(self._dimensions, int):
         #    dimensions = [self._dimensions]
-        if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in enumerate(ctrl_states)):
+        if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
         self._controls_data = ControlData(indices, ctrl_states)
-- 
2.43.0


From 0c37e6520cbf7baecc0c1dafb0f6430224f70888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 02/53] fix: keep the long-range flag up to date when controls
 are added to a gate

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index cfb8370..2b5736d 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -132,7 +132,7 @@ class Gate(Instruction):
             self.set_gate_type_two()
         elif len(self.reference_lines) > 2:
             self.set_gate_type_multi()
-        self.check_long_range()
+        self.is_long_range = self.check_long_range()
         return self
 
     def validate_parameter(self, param: Parameter) -> bool:  # noqa: PLR6301 ARG002
-- 
2.43.0


From 4b008fd6b3e8f05622ef4929d6f721777ca70015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 03/53] fix: index the dimensions slice relative to its first
 line when embedding a single-qudit gate

---
 .../quantum_circuit/components/extensions/matrix_factory.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index aed2a37..dc44438 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -81,7 +81,7 @@ class MatrixFactory:
         slide_indices_rest = [q - min(ref_lines) for q in rest_of_indices]
 
         single_site_logics = (
-            [list(range(dimensions[qudits_applied[0]]))]
+            [list(range(dimensions[slide_indices_qudits_a[0]]))]
             if len(qudits_applied) == 1
             else [list(range(d)) for d in operator.itemgetter(*slide_indices_qudits_a)(dimensions)]
         )
-- 
2.43.0


From 15cd53032358d693d078a2b5fa8eb531531b6e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 04/53] fix: reject gates the decision diagram simulator does
 not support instead of using an uninitialised edge

---
 src/python/bindings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 89fa626..3d2c95c 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -502,7 +502,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
   const auto& [tag, dag, dims, gate_type, target_qudits, params, control_set] =
       instruction;
 
-  dd::MDDPackage::mEdge gate;
+  dd::MDDPackage::mEdge gate{};
   auto numberRegs =
       static_cast<dd::QuantumRegisterCount>(dd->numberOfQuantumRegisters);
 
@@ -756,6 +756,10 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto target = static_cast<dd::QuantumRegister>(target_qudits.at(1));
     return dd->csum(numberRegs, cReg, target, dag);
   }
+  if (gate.nextNode == nullptr) {
+    throw std::invalid_argument("Gate " + tag +
+                                " is not supported on these dimensions");
+  }
   if (dag) {
     gate = dd->conjugateTranspose(gate);
   }
-- 
2.43.0


From cbec1673f7befca5973bda8c485da47da260d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 05/53] fix: lay out LS and MS matrices in circuit-line order
 when the targets are reversed on mixed dimensions

---
 src/mqt/qudits/quantum_circuit/gates/ls.py | 10 ++++++----
 src/mqt/qudits/quantum_circuit/gates/ms.py |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/ls.py b/src/mqt/qudits/quantum_circuit/gates/ls.py
index 79b720e..4faa010 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ls.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ls.py
@@ -45,15 +45,17 @@ class LS(Gate):
             self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
+        qudits_targeted = cast(list[int], self.target_qudits)
+        # the matrix is laid out in the order of the circuit lines
+        _, lines_dimensions = zip(*sorted(zip(qudits_targeted, self.dimensions)))
+        dimension_0, dimension_1 = lines_dimensions
 
         exp_matrix = np.zeros((dimension_0 * dimension_1, dimension_0 * dimension_1), dtype="complex")
         d_min = min(dimension_0, dimension_1)
         for i in range(d_min):
             exp_matrix += np.outer(
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
+                np.array(from_dirac_to_basis([i, i], list(lines_dimensions))),
+                np.array(from_dirac_to_basis([i, i], list(lines_dimensions))),
             )
 
         return expm(-1j * self.theta * exp_matrix)
diff --git a/src/mqt/qudits/quantum_circuit/gates/ms.py b/src/mqt/qudits/quantum_circuit/gates/ms.py
index db3aaeb..22fca59 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ms.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ms.py
@@ -44,12 +44,12 @@ class MS(Gate):
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         theta = self.theta
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
         ps: list[int | str] = [0, 1, "s"]
         qudits_targeted = cast(list[int], self.target_qudits)
-        qudit_targeted_0: int = qudits_targeted[0]
-        qudit_targeted_1: int = qudits_targeted[1]
+        # the matrix is laid out in the order of the circuit lines
+        lines_targeted, lines_dimensions = zip(*sorted(zip(qudits_targeted, self.dimensions)))
+        qudit_targeted_0, qudit_targeted_1 = lines_targeted
+        dimension_0, dimension_1 = lines_dimensions
 
         gate_part_1 = np.kron(
             np.identity(dimension_0, dtype="complex"),
-- 
2.43.0


From 2057a2143259b9fede7c353b4a6259202c88030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 06/53] fix: make Gate.dag an involution, so that daggering a
 decomposition that contains daggered gates inverts it

A second dag() used to leave the gate daggered: the entangling passes dagger decompositions
that already contain daggered (and shared) gates, and the two transpile methods that daggered
or reversed the result of transpile_gate once more emitted the inverse or the reversed circuit.
---
 .../onedit/mapping_aware_transpilation/phy_local_qr_decomp.py | 1 -
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py  | 4 ++--
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py  | 3 ++-
 src/mqt/qudits/quantum_circuit/gate.py                        | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index c3da3df..07f9d71 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -38,7 +38,6 @@ class PhyLocQRPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.SINGLE:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans = [op.dag() for op in reversed(gate_trans)]
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index fe13562..f8f637b 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 import gc
 import typing
+from copy import copy
 from operator import itemgetter
 
 import numpy as np
@@ -33,7 +34,7 @@ class LogEntQRCEXPass(CompilerPass):
     def transpile_gate(gate: Gate) -> list[Gate]:
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        return [op.dag() for op in reversed(decomp)]
+        return [copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
@@ -42,7 +43,6 @@ class LogEntQRCEXPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.TWO:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans.reverse()
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 1c24a28..d3ad43e 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import gc
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 from mqt.qudits.compiler import CompilerPass
@@ -62,7 +63,7 @@ class PhyEntQRCEXPass(CompilerPass):
         perm_0_d_seq.extend(perm_0_seq)
         perm_0_d_seq.extend(perm_1_seq)
 
-        return [op.dag() for op in reversed(decomp)]
+        return [copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 2b5736d..ddc6054 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -85,7 +85,7 @@ class Gate(Instruction):
 
     def dag(self) -> Gate:
         self._name += "_dag"
-        self.dagger = True
+        self.dagger = not self.dagger
         return self
 
     def to_matrix(self, identities: int = 0) -> NDArray:
-- 
2.43.0


From 67272b06079b2bd95d088db40c6cbfbe664b9cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 07/53] fix: decompose two-qudit gates with reversed targets in
 circuit-line order

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index f8f637b..b90be01 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -55,8 +55,9 @@ class EntangledQRCEX:
     def __init__(self, gate: Gate) -> None:
         self.gate: Gate = gate
         self.circuit: QuantumCircuit = gate.parent_circuit
-        self.dimensions: list[int] = itemgetter(*gate.reference_lines)(self.circuit.dimensions)
-        self.qudit_indices: list[int] = gate.reference_lines
+        # the matrix of the gate is laid out in circuit-line order
+        self.qudit_indices: list[int] = sorted(gate.reference_lines)
+        self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
         self.decomposition: list[Gate] = []
 
-- 
2.43.0


From fff601c6a44c0629565f05b110ea729160cdbab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 08/53] fix: keep the dagger and the phase of a CEx gate when
 mapping it to physical levels

---
 .../twodit/entanglement_qr/phy_ent_qr_cex_decomp.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index d3ad43e..c0b39ef 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -4,6 +4,8 @@ import gc
 from copy import copy
 from typing import TYPE_CHECKING, cast
 
+import numpy as np
+
 from mqt.qudits.compiler import CompilerPass
 from mqt.qudits.compiler.onedit import PhyLocQRPass
 from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
@@ -41,8 +43,11 @@ class PhyEntQRCEXPass(CompilerPass):
             if new_la < new_lb:
                 new_parameters = [new_la, new_lb, new_ctrl_lev, gate.phi]
             else:
-                new_parameters = [new_lb, new_la, new_ctrl_lev, gate.phi]
+                # exchanging the levels of the rotation changes the sign of its phase
+                new_parameters = [new_lb, new_la, new_ctrl_lev, (2 * np.pi - gate.phi) % (2 * np.pi)]
             tcex = CEx(parent_circ, "CEx_t" + str(target_qudits), target_qudits, new_parameters, dimensions, None)
+            if gate.dagger:
+                tcex.dag()
             return [tcex]
 
         perm_0 = Perm(gate.parent_circuit, "Pm_ent_0", target_qudits[0], lp_map_0, dimensions[0])
-- 
2.43.0


From 9297fd75c2ffe762140224dafbb1fb2fe8b6e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 09/53] fix: wrap the decomposition of an entangling gate in
 the level permutations of its qudits

---
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index c0b39ef..30c217c 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -64,11 +64,11 @@ class PhyEntQRCEXPass(CompilerPass):
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
         perm_0_d_seq.extend(perm_1_d_seq)
-        perm_0_d_seq.extend(decomp)
+        perm_0_d_seq.extend(copy(op).dag() for op in reversed(decomp))
         perm_0_d_seq.extend(perm_0_seq)
         perm_0_d_seq.extend(perm_1_seq)
 
-        return [copy(op).dag() for op in reversed(decomp)]
+        return perm_0_d_seq
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 0474012fb4493129cd52eec0bd732f144df915a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 10/53] fix: compile controlled single-qudit gates as two-qudit
 gates and leave larger gates untouched in O1 and O2

A controlled gate has an int target, which the entangling pass could not handle, and the matrix of
a long-range controlled gate also covers the lines in between.  Gates on three or more qudits were
sent to the two-qudit decomposition by O1 and O2, although O0 leaves them alone.
---
 src/mqt/qudits/compiler/dit_compiler.py                |  8 ++++++--
 .../twodit/entanglement_qr/log_ent_qr_cex_decomp.py    |  7 +++++++
 .../twodit/entanglement_qr/phy_ent_qr_cex_decomp.py    | 10 +++++++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index b912752..f07da5c 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -87,9 +87,11 @@ class QuditCompiler:
             if gate.gate_type is GateTypes.SINGLE:
                 ins = phyloc.transpile_gate(gate)
                 new_instructions.extend(ins)
-            else:
+            elif gate.gate_type is GateTypes.TWO:
                 ins = phyent.transpile_gate(gate)
                 new_instructions.extend(ins)
+            else:
+                new_instructions.append(gate)
         transpiled_circuit = circuit.copy()
         mappings = []
         for i, graph in enumerate(backend.energy_level_graphs):
@@ -110,9 +112,11 @@ class QuditCompiler:
                 phyloc = PhyLocAdaPass(backend, lanes.next_is_local(gate))
                 ins = phyloc.transpile_gate(gate)
                 new_instructions.extend(ins)
-            else:
+            elif gate.gate_type is GateTypes.TWO:
                 ins = phyent.transpile_gate(gate)
                 new_instructions.extend(ins)
+            else:
+                new_instructions.append(gate)
         transpiled_circuit = circuit.copy()
         mappings = []
         for i, graph in enumerate(backend.energy_level_graphs):
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index b90be01..cd573ae 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -59,6 +59,13 @@ class EntangledQRCEX:
         self.qudit_indices: list[int] = sorted(gate.reference_lines)
         self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
+        if gate.get_control_lines and gate.is_long_range:
+            # the matrix of a controlled gate also covers the lines between control and target
+            first, last = self.qudit_indices
+            span = self.circuit.dimensions[first : last + 1]
+            inner = (slice(None), *([0] * (len(span) - 2)), slice(None))
+            size = self.dimensions[0] * self.dimensions[1]
+            self.u = self.u.reshape(span + span)[inner + inner].reshape(size, size)
         self.decomposition: list[Gate] = []
 
     @staticmethod
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 30c217c..d90f2ed 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import gc
 from copy import copy
-from typing import TYPE_CHECKING, cast
+from typing import TYPE_CHECKING
 
 import numpy as np
 
@@ -26,8 +26,12 @@ class PhyEntQRCEXPass(CompilerPass):
         self.circuit = QuantumCircuit()
 
     def transpile_gate(self, gate: Gate) -> list[Gate]:
-        target_qudits = cast(list[int], gate.target_qudits)
-        dimensions = cast(list[int], gate.dimensions)
+        if isinstance(gate.target_qudits, int):
+            # a single-qudit gate with one control
+            target_qudits = sorted(gate.reference_lines)
+        else:
+            target_qudits = gate.target_qudits
+        dimensions = [gate.parent_circuit.dimensions[i] for i in target_qudits]
 
         energy_graph_c = self.backend.energy_level_graphs[target_qudits[0]]
         energy_graph_t = self.backend.energy_level_graphs[target_qudits[1]]
-- 
2.43.0


From 16a87e4b1c95a540c1d50d71e0c7bffc30c038fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 11/53] fix: draw the unitary of a RandU gate once instead of
 on every read

---
 src/mqt/qudits/quantum_circuit/gates/randu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/randu.py b/src/mqt/qudits/quantum_circuit/gates/randu.py
index bf2aabc..2b291e5 100644
--- a/src/mqt/qudits/quantum_circuit/gates/randu.py
+++ b/src/mqt/qudits/quantum_circuit/gates/randu.py
@@ -36,10 +36,11 @@ class RandU(Gate):
             control_set=controls,
             qasm_tag="rdu",
         )
+        # drawn once, so that the gate denotes the same unitary every time it is read
+        self.__array_storage = unitary_group.rvs(reduce(operator.mul, self.dimensions))
 
     def __array__(self) -> NDArray[np.complex128, np.complex128]:  # noqa: PLW3201
-        dim = reduce(operator.mul, self.dimensions)
-        return unitary_group.rvs(dim)
+        return self.__array_storage
 
     @property
     def dimensions(self) -> list[int]:
-- 
2.43.0


From 2bc60754f299707324a8bbd9b7483ff50ae04e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 12/53] fix: name the control qudits, not the target, when
 exporting a controlled gate to QASM

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index ddc6054..536e783 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -179,7 +179,7 @@ class Gate(Instruction):
             string += " ctl "
             for _ctrl in self._controls_data.indices:
                 string += (
-                    f"{self.parent_circuit.inverse_sitemap[qudit][0]}[{self.parent_circuit.inverse_sitemap[qudit][1]}] "
+                    f"{self.parent_circuit.inverse_sitemap[_ctrl][0]}[{self.parent_circuit.inverse_sitemap[_ctrl][1]}] "
                 )
             string += str(self._controls_data.ctrl_states)
 
-- 
2.43.0


From bbd6f7729a202fc82baae4b3912af0d2c0750b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 13/53] fix: hand the parameters read from QASM to the gates as
 a list with integer levels

---
 src/mqt/qudits/quantum_circuit/qasm.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 0627cba..a936050 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import re
 from pathlib import Path
-from typing import TYPE_CHECKING, Any, cast
+from typing import TYPE_CHECKING, Any, ClassVar, cast
 
 import numpy as np
 
@@ -16,6 +16,17 @@ if TYPE_CHECKING:
 class QASM:
     """Class that manages the parsing of QASM programs."""
 
+    # leading parameters of a gate that denote levels
+    number_of_levels: ClassVar[dict[str, int]] = {
+        "cx": 3,
+        "noisex": 2,
+        "noisey": 2,
+        "rh": 2,
+        "rxy": 2,
+        "rz": 2,
+        "virtrz": 1,
+    }
+
     def __init__(self) -> None:
         self.program: dict[str, Any] = {}
 
@@ -108,9 +119,12 @@ class QASM:
                     params = np.load(params)
                 else:
                     # TODO: This does not handle "custom_data" correctly
-                    params = tuple(QASM.safe_eval_math_expression(param) for param in params.strip("()[]").split(","))
+                    params = [QASM.safe_eval_math_expression(param) for param in params.strip("()[]").split(",")]
+                    # the gates expect their levels as integers, ahead of the angles
+                    n_levels = QASM.number_of_levels.get(label, len(params) if label == "pm" else 0)
+                    params[:n_levels] = [int(level) for level in params[:n_levels]]
             else:
-                params = ()
+                params = []
 
             qudits_list = []
             for dit in qudits.split(","):
-- 
2.43.0


From a90803845ecc17a5d63b792325e7e85ad99bdd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 14/53] fix: read controls from QASM for every gate, also those
 whose constructor takes none

---
 src/mqt/qudits/quantum_circuit/circuit.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index fb83ac3..04d6d11 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -347,14 +347,11 @@ class QuantumCircuit:
                     else:
                         qudits_call = [t[0] for t in list(tuples_qudits)]
                     if is_not_none_or_empty(op["params"]):
-                        if op["controls"]:
-                            function(qudits_call, op["params"], op["controls"])
-                        else:
-                            function(qudits_call, op["params"])
-                    elif op["controls"]:
-                        function(qudits_call, op["controls"])
+                        gate = function(qudits_call, op["params"])
                     else:
-                        function(qudits_call)
+                        gate = function(qudits_call)
+                    if op["controls"]:
+                        gate.control(op["controls"].indices, op["controls"].ctrl_states)
                 else:
                     msg = "the required gate_matrix is not available anymore."
                     raise NotImplementedError(msg)
-- 
2.43.0


From d9c992fcd4648187ae5a3c9cfe52237c107239d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 15/53] fix: load noisex and noisey gates from QASM and reject
 unknown gates instead of dropping them

---
 src/mqt/qudits/quantum_circuit/circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 04d6d11..c645985 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -77,6 +77,8 @@ class QuantumCircuit:
         "h": "h",
         "ls": "ls",
         "ms": "ms",
+        "noisex": "noisex",
+        "noisey": "noisey",
         "pm": "pm",
         "rxy": "r",
         "rh": "rh",
@@ -355,6 +357,9 @@ class QuantumCircuit:
                 else:
                     msg = "the required gate_matrix is not available anymore."
                     raise NotImplementedError(msg)
+            else:
+                msg = f"gate {op['name']} is not supported."
+                raise NotImplementedError(msg)
 
     def to_qasm(self) -> str:
         text = ""
-- 
2.43.0


From 518959a95358f1797043d19a8e10258ee2607f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 16/53] fix: end a block comment wherever it is closed, not
 only at the start of a line

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index a936050..bea4535 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -45,7 +45,7 @@ class QASM:
             in_comment = True
         if in_comment:
             # in multiline comment, check if its ending
-            in_comment = not bool(rgxs["comment_end"].match(line))
+            in_comment = not bool(rgxs["comment_end"].search(line))
             return True, in_comment
         if rgxs["header"].match(line):
             # ignore standard header lines
-- 
2.43.0


From c9d6eebbb1f3cec70975e4315378dd9a76f0408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 17/53] fix: forget the level mappings of a circuit when it is
 reset

---
 src/mqt/qudits/quantum_circuit/circuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index c645985..bef701a 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -148,6 +148,7 @@ class QuantumCircuit:
         self.num_cl = 0
         self.num_qudits = 0
         self._dimensions = []
+        self.mappings = None
         self.path_save = None
 
     def copy(self) -> QuantumCircuit:
-- 
2.43.0


From 64c5482674cd94b7f20120559e6c1b0826be7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 18/53] fix: place controlled gates on the lanes of their
 controls and target

---
 src/mqt/qudits/core/lanes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index 0e7b1e2..c35b1d2 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -46,8 +46,7 @@ class Lanes:
                     self.index_dict[index] = []
                 self.index_dict[index].append(gate_tuple)
             elif gate.gate_type in {GateTypes.TWO, GateTypes.MULTI}:
-                indices: list[int] = cast(list[int], gate.target_qudits)
-                for index in indices:
+                for index in gate.reference_lines:
                     if index not in self.index_dict:
                         self.index_dict[index] = []
                     self.index_dict[index].append(gate_tuple)
@@ -90,8 +89,7 @@ class Lanes:
                 else:
                     consecutive_groups[target_qudits] = [[gate_tuple]]
             else:
-                qudits_targeted: list[int] = cast(list[int], gate.target_qudits)
-                for qudit in qudits_targeted:
+                for qudit in gate.reference_lines:
                     consecutive_groups[qudit].append([gate_tuple])
                     consecutive_groups[qudit].append([])
         consecutive_groups = {
-- 
2.43.0


From 380ebba65624a727ace2e7926298b8414d8d400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 19/53] fix: keep every occurrence of a gate object that a
 circuit applies more than once

---
 src/mqt/qudits/core/lanes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index c35b1d2..30b7d91 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -60,8 +60,8 @@ class Lanes:
 
         for line in sorted(self.index_dict.keys()):  # Iterate over keys in sorted order
             for gate_tuple in self.index_dict[line]:
-                gate = gate_tuple[1]
-                obj_id = id(gate)
+                # a gate on several lines is the same tuple in each of them
+                obj_id = id(gate_tuple)
                 if obj_id not in seen_ids:
                     combined_list.append(gate_tuple)
                     seen_ids.add(obj_id)
-- 
2.43.0


From 58518278cdd12231a10a59efffb2039d7197e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 20/53] fix: track the phases of a routing pulse exactly, also
 when phases are pending on its levels

---
 .../onedit/local_operation_swap/swap_routine.py  | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py b/src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py
index 01f7d41..db4afff 100644
--- a/src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py
+++ b/src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py
@@ -9,7 +9,6 @@ import numpy as np
 from ....quantum_circuit import gates
 from ...compilation_minitools import (
     new_mod,
-    pi_mod,
     rotation_cost_calc,
     swap_elements,
 )
@@ -47,14 +46,13 @@ def graph_rule_update(gate: gates.R, graph: LevelGraph) -> None:
             # SWAPPING PHASES
             graph.swap_node_attr_simple(logic_nodes[0], logic_nodes[1])
 
-            phase = pi_mod(gate.phi)
-            if (gate.theta * phase) > 0:
-                graph.nodes[logic_nodes[1]]["phase_storage"] += np.pi
-                graph.nodes[logic_nodes[1]]["phase_storage"] = new_mod(graph.nodes[logic_nodes[1]]["phase_storage"])
-
-            elif (gate.theta * phase) < 0:
-                graph.nodes[logic_nodes[0]]["phase_storage"] += np.pi
-                graph.nodes[logic_nodes[0]]["phase_storage"] = new_mod(graph.nodes[logic_nodes[0]]["phase_storage"])
+            # PHASES OF THE PULSE: it is a swap up to the phases of its two off-diagonal entries,
+            # which depend on phi continuously (pending phases have been added to it)
+            quarter = math.copysign(np.pi / 2, gate.theta)
+            phase_a = graph.nodes[logic_nodes[0]]["phase_storage"] + gate.phi - quarter
+            phase_b = graph.nodes[logic_nodes[1]]["phase_storage"] + 2 * np.pi - quarter - gate.phi
+            graph.nodes[logic_nodes[0]]["phase_storage"] = new_mod(phase_a)
+            graph.nodes[logic_nodes[1]]["phase_storage"] = new_mod(phase_b)
 
     return
 
-- 
2.43.0


From 2f3c5557d8603bad48a27acd276134804c18a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 21/53] fix: apply the adaptive decomposition in the order in
 which it moves the levels

---
 .../phy_local_adaptive_decomp.py                      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 6318bf3..d9c6740 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import contextlib
 import gc
 import itertools
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -41,17 +42,21 @@ class PhyLocAdaPass(CompilerPass):
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
 
-        qr = PhyQrDecomp(gate, energy_graph_i)
+        # The sequence found reduces its unitary to the identity while it moves the levels from the current placement
+        # to the new one. Reducing the inverse therefore realises the gate, and leaves the levels where the next
+        # gate of the circuit finds them.
+        inverse = copy(gate).dag()
+        qr = PhyQrDecomp(inverse, energy_graph_i)
 
         _decomp, algorithmic_cost, total_cost = qr.execute()
 
         adaptive = PhyAdaptiveDecomposition(
-            gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
+            inverse, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
         )
         (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
-        return [op.dag() for op in reversed(matrices_decomposed)]
+        return matrices_decomposed
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit: QuantumCircuit = circuit
-- 
2.43.0


From d92f6b23fd1b1d2e0f18359a6fbab7ebd5109b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 22/53] fix: fall back to the QR decomposition when the
 adaptive search finds no sequence within its cost

---
 .../phy_local_adaptive_decomp.py                         | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index d9c6740..749ab77 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -53,7 +53,14 @@ class PhyLocAdaPass(CompilerPass):
         adaptive = PhyAdaptiveDecomposition(
             inverse, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
         )
-        (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
+        (matrices_decomposed, best_cost, new_energy_level_graph) = adaptive.execute()
+
+        if np.isinf(best_cost[0]):
+            # no sequence within the cost of the QR decomposition: use that one
+            decomp, _algorithmic_cost, _total_cost = PhyQrDecomp(
+                inverse, energy_graph_i, not_stand_alone=False
+            ).execute()
+            return decomp
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
         return matrices_decomposed
-- 
2.43.0


From aaeef9ca6b79ad01ec408127dafc33ec0e026355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 23/53] fix: leave the level graphs of the backend as they were
 when a compilation has moved levels

---
 src/mqt/qudits/compiler/dit_compiler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index f07da5c..70bea19 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import typing
+from copy import deepcopy
 from typing import Optional
 
 from ..core.lanes import Lanes
@@ -35,6 +36,10 @@ class QuditCompiler:
         pass
 
     def compile(self, backend: Backend, circuit: QuantumCircuit, passes_names: list[str]) -> QuantumCircuit:
+        # the adaptive passes move the levels of the backend while they compile: let them work on copies
+        backend_graphs = list(backend.energy_level_graphs)
+        backend.energy_level_graphs[:] = deepcopy(backend_graphs)
+
         passes_dict = {}
         new_instr = []
         # Instantiate and execute created classes
@@ -60,6 +65,7 @@ class QuditCompiler:
         for i, graph in enumerate(backend.energy_level_graphs):
             if i < circuit.num_qudits:
                 mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
+        backend.energy_level_graphs[:] = backend_graphs
         transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instr)
 
@@ -104,6 +110,10 @@ class QuditCompiler:
     def compile_O2(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
         phyent = PhyEntQRCEXPass(backend)
 
+        # the adaptive passes move the levels of the backend while they compile: let them work on copies
+        backend_graphs = list(backend.energy_level_graphs)
+        backend.energy_level_graphs[:] = deepcopy(backend_graphs)
+
         lanes = Lanes(circuit)
         new_instructions = []
         for gate in circuit.instructions:
@@ -122,5 +132,6 @@ class QuditCompiler:
         for i, graph in enumerate(backend.energy_level_graphs):
             if i < circuit.num_qudits:
                 mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
+        backend.energy_level_graphs[:] = backend_graphs
         transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instructions)
-- 
2.43.0


From 970cd8ed381b60314562a96d4985630f236de4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 24/53] fix: return the inverse of the sequence that reduces a
 gate from the logical QR pass

---
 .../mapping_un_aware_transpilation/log_local_qr_decomp.py  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index 170ac82..c811029 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -30,7 +30,8 @@ class LogLocQRPass(CompilerPass):
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
         qr = QrDecomp(gate, energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
-        return decomp
+        # the sequence found reduces the gate to the identity
+        return [op.dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
@@ -78,9 +79,9 @@ class QrDecomp:
                             self.gate.parent_circuit,
                             "VRz",
                             cast(int, self.gate.target_qudits),
-                            [self.graph.nodes[i], theta_z],
+                            [i, theta_z],
                             cast(int, self.gate.dimensions),
-                        )  # (thetaZ, self.graph.nodes[i]['lpmap'], dimension) # [self.graph.nodes[i]["lpmap"], thetaZ],
+                        )
                         decomp.append(phase_gate)
                     recover_dict[i] = theta_z
 
-- 
2.43.0


From 78454c7feff4cbe06de1981b2f849921b04a2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 25/53] fix: let the logical adaptive pass realise the gate and
 leave the level graphs alone

---
 .../log_local_adaptive_decomp.py                  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 93dee68..c13583e 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -34,19 +34,20 @@ class LogLocAdaPass(CompilerPass):
 
         qr = QrDecomp(gate, energy_graph_i)
 
-        _decomp, algorithmic_cost, total_cost = qr.execute()
+        decomp, algorithmic_cost, total_cost = qr.execute()
 
         adaptive = LogAdaptiveDecomposition(
             gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions)
         )
 
-        (
-            matrices_decomposed,
-            _best_cost,
-            self.backend.energy_level_graphs[cast(int, gate.target_qudits)],
-        ) = adaptive.execute()
+        # the logical decomposition does not move the levels of the backend
+        matrices_decomposed, best_cost, _final_graph = adaptive.execute()
+        if np.isinf(best_cost[0]):
+            # no sequence within the cost of the QR decomposition: use that one
+            matrices_decomposed = decomp
 
-        return matrices_decomposed
+        # the sequence found reduces the gate to the identity
+        return [op.dag() for op in reversed(matrices_decomposed)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From d1b2641621e23d8b06db956de59d81cebcddbabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 26/53] fix: map a result from physical back to logical levels,
 not the other way

---
 src/mqt/qudits/visualisation/plot_information.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 1bc688f..02046dd 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -23,7 +23,8 @@ def remap_result(
         permutation = np.eye(circuit.dimensions[0])[:, circuit.mappings[0]]
         for i in range(1, len(circuit.mappings)):
             permutation = np.kron(permutation, np.eye(circuit.dimensions[i])[:, circuit.mappings[i]])
-        return new_result @ np.linalg.inv(permutation)
+        # column i of the permutation is the physical state that holds the logical state i
+        return new_result @ permutation
     return new_result
 
 
-- 
2.43.0


From 3fc69d89b12b8b3f80e7beab4a694264dbc9f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 27/53] fix: announce level mappings only for circuits that
 have been placed on the device

---
 src/mqt/qudits/compiler/dit_compiler.py                      | 4 +++-
 src/mqt/qudits/compiler/naive_local_resynth/local_resynth.py | 5 -----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index 70bea19..18845b6 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -66,7 +66,9 @@ class QuditCompiler:
             if i < circuit.num_qudits:
                 mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
         backend.energy_level_graphs[:] = backend_graphs
-        transpiled_circuit.set_mapping(mappings)
+        if any("Phy" in str(type(compiler_pass)) for compiler_pass in passes_dict.values()):
+            # logical passes do not place the levels of the circuit on the device
+            transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instr)
 
     def compile_O0(self, backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
diff --git a/src/mqt/qudits/compiler/naive_local_resynth/local_resynth.py b/src/mqt/qudits/compiler/naive_local_resynth/local_resynth.py
index 5dc5931..05c5ead 100644
--- a/src/mqt/qudits/compiler/naive_local_resynth/local_resynth.py
+++ b/src/mqt/qudits/compiler/naive_local_resynth/local_resynth.py
@@ -54,9 +54,4 @@ class NaiveLocResynthOptPass(CompilerPass):
         new_instructions = self.lanes.extract_instructions()
 
         transpiled_circuit = circuit.copy()
-        mappings = []
-        for i, graph in enumerate(self.backend.energy_level_graphs):
-            if i < circuit.num_qudits:
-                mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
-        transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instructions)
-- 
2.43.0


From 08f7c8f5a728cd4e5d7f3bbb989e34de67c55202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 28/53] fix: propagate phases through runs of rotations in
 place and keep all other gates

---
 .../propagate_virtrz.py                       | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
index 434332c..c892b14 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
@@ -4,6 +4,7 @@ import copy
 from typing import TYPE_CHECKING, Union, cast
 
 from ....quantum_circuit import gates
+from ....quantum_circuit.components.extensions.gate_types import GateTypes
 from ... import CompilerPass
 from ...compilation_minitools import pi_mod
 
@@ -26,6 +27,12 @@ class ZPropagationOptPass(CompilerPass):
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         return self.remove_z(circuit, self.back)
 
+    @staticmethod
+    def can_propagate(gate: Gate) -> bool:
+        from ....quantum_circuit.gates import R, VirtRz
+
+        return isinstance(gate, (R, VirtRz)) and gate.gate_type == GateTypes.SINGLE
+
     @staticmethod
     def propagate_z(circuit: QuantumCircuit, line: list[R | VirtRz], back: bool) -> tuple[list[R], list[VirtRz]]:
         z_angles: dict[int, float] = {}
@@ -79,7 +86,7 @@ class ZPropagationOptPass(CompilerPass):
     def find_intervals_with_same_target_qudits(instructions: list[Gate]) -> list[tuple[int, ...]]:
         intervals: list[tuple[int, ...]] = []
         current_interval: list[int] = []
-        current_target_qudits: list[int] = []
+        current_key: tuple[list[int], bool] | None = None
         target_qudits: list[int] = []
 
         for i, instruction in enumerate(instructions):
@@ -88,7 +95,9 @@ class ZPropagationOptPass(CompilerPass):
             elif isinstance(instruction.target_qudits, list):
                 target_qudits = instruction.target_qudits
 
-            if len(current_target_qudits) == 0 or target_qudits == current_target_qudits:
+            # phases only move through rotations: any other gate on the same qudits closes the interval
+            key = (target_qudits, ZPropagationOptPass.can_propagate(instruction))
+            if current_key is None or key == current_key:
                 # If it's the first gate_matrix or the target qudits are the same, add to the current interval
                 current_interval.append(i)
             else:
@@ -96,7 +105,7 @@ class ZPropagationOptPass(CompilerPass):
                 intervals.append(tuple(current_interval))
                 current_interval = [i]
 
-            current_target_qudits = target_qudits
+            current_key = key
 
         # Save the last interval if it exists
         if current_interval:
@@ -106,20 +115,20 @@ class ZPropagationOptPass(CompilerPass):
 
     def remove_z(self, original_circuit: QuantumCircuit, back: bool = True) -> QuantumCircuit:
         circuit = original_circuit.copy()
-        new_instructions: list[Gate] = copy.deepcopy(circuit.instructions)
+        new_instructions: list[Gate] = []
         intervals: list[tuple[int, ...]] = self.find_intervals_with_same_target_qudits(circuit.instructions)
 
         for interval in intervals:
-            if len(interval) > 1:
+            sequence = circuit.instructions[interval[0] : interval[-1] + 1]
+            if len(interval) > 1 and self.can_propagate(sequence[0]):
                 from ....quantum_circuit.gates import R, VirtRz
 
-                sequence = cast(list[Union[R, VirtRz]], circuit.instructions[interval[0] : interval[-1] + 1])
                 fixed_seq: list[R] = []
                 z_tail: list[VirtRz] = []
-                fixed_seq, z_tail = self.propagate_z(circuit, sequence, back)
+                fixed_seq, z_tail = self.propagate_z(circuit, cast(list[Union[R, VirtRz]], sequence), back)
 
-                combined_seq = z_tail + fixed_seq if back else fixed_seq + z_tail
-                new_instructions[interval[0] : interval[-1] + 1] = []
-                new_instructions.extend(combined_seq)
+                new_instructions.extend(z_tail + fixed_seq if back else fixed_seq + z_tail)
+            else:
+                new_instructions.extend(copy.deepcopy(sequence))
 
         return circuit.set_instructions(new_instructions)
-- 
2.43.0


From e73ec7299fa219ce01ca5d6f5c00cf628b4e4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 29/53] fix: respect daggers when propagating phases

---
 .../onedit/local_phases_transpilation/propagate_virtrz.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
index c892b14..c4cfbaf 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
@@ -52,6 +52,7 @@ class ZPropagationOptPass(CompilerPass):
             if isinstance(line[gate_index], R):
                 # line[gate_index].lev_b
                 # object is R
+                theta = -line[gate_index].theta if line[gate_index].dagger else line[gate_index].theta
                 if back:
                     new_phi = pi_mod(
                         line[gate_index].phi + z_angles[line[gate_index].lev_a] - z_angles[line[gate_index].lev_b]
@@ -65,12 +66,13 @@ class ZPropagationOptPass(CompilerPass):
                         circuit,
                         "R",
                         qudit_index,
-                        [line[gate_index].lev_a, line[gate_index].lev_b, line[gate_index].theta, new_phi],
+                        [line[gate_index].lev_a, line[gate_index].lev_b, theta, new_phi],
                         dimension,
                     )
                 )
             elif isinstance(line[gate_index], VirtRz):  # except AttributeError:
-                z_angles[line[gate_index].lev_a] = pi_mod(z_angles[line[gate_index].lev_a] + line[gate_index].phi)
+                phi = -line[gate_index].phi if line[gate_index].dagger else line[gate_index].phi
+                z_angles[line[gate_index].lev_a] = pi_mod(z_angles[line[gate_index].lev_a] + phi)
         if back:
             list_of_x_yrots.reverse()
 
-- 
2.43.0


From 1936298611e69774f04d0751641cb4b177c23240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 30/53] fix: keep controlled phase gates, whose phase is not
 global, when removing phase rotations

---
 .../local_phases_transpilation/remove_phase_rotations.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
index 91a1d64..4c607b2 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
@@ -4,6 +4,7 @@ import copy
 import typing
 
 from ....quantum_circuit import gates
+from ....quantum_circuit.components.extensions.gate_types import GateTypes
 from ... import CompilerPass
 
 if typing.TYPE_CHECKING:
@@ -40,10 +41,10 @@ class ZRemovalOptPass(CompilerPass):
                 break
 
             target_qudits = instruction.target_qudits
-            if isinstance(target_qudits, list):
-                # If target_qudits is a list, add each element to the set and
+            if instruction.gate_type != GateTypes.SINGLE:
+                # If the gate acts on several qudits (targets or controls), add each of them to the set and
                 # continue to the next iteration because we work only with single gates
-                seen_target_qudits.update(target_qudits)
+                seen_target_qudits.update(instruction.reference_lines)
                 continue
             if target_qudits not in seen_target_qudits and isinstance(instruction, (gates.Rz, gates.VirtRz, gates.Z)):
                 indices_to_remove.append(i)
-- 
2.43.0


From a4b2e00fe4080f8f0f846a3ad749732b4e1b47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 31/53] fix: keep the noise of every gate of a noise model in
 an object of its own

---
 src/mqt/qudits/simulation/noise_tools/noise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noise.py b/src/mqt/qudits/simulation/noise_tools/noise.py
index be301c1..9733f83 100644
--- a/src/mqt/qudits/simulation/noise_tools/noise.py
+++ b/src/mqt/qudits/simulation/noise_tools/noise.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import copy
+
 
 class Noise:
     """Represents a noise model with depolarizing and dephasing probabilities."""
@@ -98,7 +100,7 @@ class NoiseModel:
             if gate not in self.quantum_errors:
                 self.quantum_errors[gate] = {}
             if mode not in self.quantum_errors[gate]:
-                self.quantum_errors[gate][mode] = noise  # empty case
+                self.quantum_errors[gate][mode] = copy.deepcopy(noise)  # empty case
             elif isinstance(noise, Noise):
                 msg = "Mathematical noise has been defined multiple times!"
                 raise ValueError(msg)
@@ -106,7 +108,7 @@ class NoiseModel:
                 existing_instance = self.quantum_errors[gate][mode]
                 assert isinstance(existing_instance, SubspaceNoise)
                 existing_instance.add_noises(
-                    noise.subspace_w_probs
+                    copy.deepcopy(noise.subspace_w_probs)
                 )  # add the noise info to the existing SubspaceNoise instance
 
     def add_quantum_error_locally(self, noise: Noise | SubspaceNoise, gates: list[str]) -> None:
-- 
2.43.0


From 56d550af3789dc6d3ceca47ee9f13a15a5a83c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 32/53] fix: find control and target qudits of controlled gates
 when placing noise on them

---
 .../noise_tools/noisy_circuit_factory.py          | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 5334c6d..e5f7091 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -5,7 +5,7 @@ import os
 import time
 from functools import partial
 from itertools import product
-from typing import TYPE_CHECKING, cast
+from typing import TYPE_CHECKING
 
 import numpy as np
 
@@ -141,8 +141,7 @@ class NoisyCircuitFactory:
 
     def _get_control_qudits(self, instruction: Gate) -> list[int]:
         self._validate_two_qudit_gate(instruction)
-        qudits_targeted = cast(list[int], instruction.target_qudits)
-        return qudits_targeted[:1]
+        return instruction.reference_lines[:1]
 
     @staticmethod
     def _get_target_qudits(instruction: Gate) -> list[int]:
@@ -157,11 +156,11 @@ class NoisyCircuitFactory:
         Returns:
         List of target qudit indices, excluding control qudits
         """
-        if instruction.gate_type != GateTypes.SINGLE:
-            qudits_targeted = instruction.reference_lines
-            return qudits_targeted[1:]
-
-        return [cast(int, instruction.target_qudits)]
+        if isinstance(instruction.target_qudits, int):
+            return [instruction.target_qudits]
+        if instruction.get_control_lines:
+            return instruction.target_qudits.copy()
+        return instruction.target_qudits[1:]
 
     @staticmethod
     def _validate_two_qudit_gate(instruction: Gate) -> None:
-- 
2.43.0


From db3d0aa942cbe0b86b82ee22c814421b854b0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 33/53] fix: draw the noise and the outcome of every shot
 independently

---
 .../simulation/backends/stochastic_sim.py     | 21 ++++++-------------
 .../noise_tools/noisy_circuit_factory.py      |  6 +-----
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/stochastic_sim.py b/src/mqt/qudits/simulation/backends/stochastic_sim.py
index a3f78e4..c667248 100644
--- a/src/mqt/qudits/simulation/backends/stochastic_sim.py
+++ b/src/mqt/qudits/simulation/backends/stochastic_sim.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import multiprocessing as mp
-import os
-import time
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -18,16 +16,10 @@ if TYPE_CHECKING:
     from .backendv2 import Backend
 
 
-def generate_seed() -> int:
-    """Generate a random seed for numpy random generator."""
-    current_time = int(time.time() * 1000)
-    return hash((os.getpid(), current_time)) % 2**32
-
-
 def measure_state(vector_data: NDArray[np.complex128]) -> int:
     """Measure the quantum state and return the result."""
     probabilities = np.abs(vector_data.ravel()) ** 2
-    rng = np.random.default_rng(generate_seed())
+    rng = np.random.default_rng()
     return rng.choice(len(probabilities), p=probabilities)
 
 
@@ -50,8 +42,7 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
 
     with mp.Pool(processes=num_processes) as pool:
         if isinstance(backend, TNSim):
-            factory = NoisyCircuitFactory(noise_model, circuit)
-            args_tn = [(backend, factory) for _ in range(shots)]
+            args_tn = [(backend, circuit, noise_model) for _ in range(shots)]
             results = pool.map(stochastic_execution_tn, args_tn)
         elif isinstance(backend, MISim):
             args_misim = [(backend, circuit, noise_model) for _ in range(shots)]
@@ -64,10 +55,10 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
     return results
 
 
-def stochastic_execution_tn(args: tuple[TNSim, NoisyCircuitFactory]) -> NDArray | int:
-    backend, factory = args
-    circuit = factory.generate_circuit()
-    vector_data = backend.execute(circuit)
+def stochastic_execution_tn(args: tuple[TNSim, QuantumCircuit, NoiseModel]) -> NDArray | int:
+    backend, circuit, noise_model = args
+    noisy_circuit = NoisyCircuitFactory(noise_model, circuit).generate_circuit()
+    vector_data = backend.execute(noisy_circuit)
     return vector_data if backend.full_state_memory else measure_state(vector_data)
 
 
diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index e5f7091..9f61083 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import copy
-import os
-import time
 from functools import partial
 from itertools import product
 from typing import TYPE_CHECKING
@@ -31,9 +29,7 @@ class NoisyCircuitFactory:
 
     @staticmethod
     def _initialize_rng() -> Generator:
-        current_time = int(time.time() * 1000)
-        seed = hash((os.getpid(), current_time)) % 2**32
-        return np.random.default_rng(seed)
+        return np.random.default_rng()
 
     def generate_circuit(self) -> QuantumCircuit:
         noisy_circuit = QuantumCircuit(self.circuit.num_qudits, self.circuit.dimensions, self.circuit.num_cl)
-- 
2.43.0


From b19772d6b4fcbe5dd0e12e382198284f8add2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 34/53] fix: accept the options a backend has in set_options

---
 src/mqt/qudits/simulation/backends/backendv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/simulation/backends/backendv2.py b/src/mqt/qudits/simulation/backends/backendv2.py
index e360034..21c759c 100644
--- a/src/mqt/qudits/simulation/backends/backendv2.py
+++ b/src/mqt/qudits/simulation/backends/backendv2.py
@@ -54,7 +54,7 @@ class Backend(ABC):
 
     def set_options(self, **fields: Unpack[Backend.DefaultOptions]) -> None:
         for field in fields:
-            if not hasattr(self._options, field):
+            if field not in Backend.DefaultOptions.__annotations__:
                 msg = f"Options field '{field}' is not valid for this backend"
                 raise AttributeError(msg)
         self._options.update(fields)
-- 
2.43.0


From 0839de09724899062d7961c05ec2b230686d09c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 35/53] fix: give every job an id of its own

---
 src/mqt/qudits/simulation/jobs/job.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index f5339ad..6f13ef8 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
-import os
 import time
+import uuid
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
@@ -36,8 +36,7 @@ class Job:
             kwargs: Any key-value metadata to associate with this job.
         """
         if job_id == "auto":
-            current_time = int(time.time() * 1000)
-            self._job_id = str(hash((os.getpid(), current_time)))
+            self._job_id = str(uuid.uuid4())
         else:
             self._job_id = job_id
         self._backend = backend
-- 
2.43.0


From dcc3edf0fd81d3530b5ccf631a263dd1a8ad9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 36/53] fix: a cancelled job is in a final state

---
 src/mqt/qudits/simulation/jobs/job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index 6f13ef8..834323c 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -5,7 +5,7 @@ import uuid
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
-from .jobstatus import JobStatus
+from .jobstatus import JOB_FINAL_STATES, JobStatus
 
 if TYPE_CHECKING:
     from collections.abc import Callable
@@ -67,7 +67,7 @@ class Job:
 
     def in_final_state(self) -> bool:
         """Return whether the job is in a final job state such as DONE or ERROR."""
-        return self.status() in {JobStatus.DONE, JobStatus.ERROR}
+        return self.status() in JOB_FINAL_STATES
 
     def wait_for_final_state(
         self, timeout: float | None = None, wait: float = 5, callback: Callable[[str, str, Job], None] | None = None
@@ -86,7 +86,7 @@ class Job:
             return
         start_time = time.time()
         status = self.status()
-        while status not in {JobStatus.DONE, JobStatus.ERROR}:
+        while status not in JOB_FINAL_STATES:
             elapsed_time = time.time() - start_time
             if timeout is not None and elapsed_time >= timeout:
                 msg = f"Timeout while waiting for job {self.job_id()}."
-- 
2.43.0


From b0a0e1fac5d72f32b40b92e2dba6c470474932cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 37/53] fix: follow an occupied branch below a reduced node
 when preparing a state

---
 .../compiler/state_compilation/state_preparation.py      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/state_compilation/state_preparation.py b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
index 3baa55b..407fa72 100644
--- a/src/mqt/qudits/compiler/state_compilation/state_preparation.py
+++ b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
@@ -161,8 +161,15 @@ class StatePrep:
                     )
         else:
             controls_track = copy.deepcopy(controls)
+            # all branches that contribute to the state are equal, branches without amplitude say nothing about them
+            occupied = [i for i in range(cardinalities[depth]) if abs(node.children[i].weight) != 0.0]
             self.synthesis(
-                labels, cardinalities, node.children[node.children_index[0]], circuit_meta, controls_track, depth + 1
+                labels,
+                cardinalities,
+                node.children[node.children_index[occupied[0]]],
+                circuit_meta,
+                controls_track,
+                depth + 1,
             )
 
     def compile_state(self) -> QuantumCircuit:
-- 
2.43.0


From 0b9fb4aa0091a1c9d9ab49011992d18add757346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 38/53] fix: read the entry of a matrix diagram at the row it
 was asked for

---
 include/dd/MDDPackage.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 12a81bd..8deb5cb 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1647,7 +1647,9 @@ public:
 
     const auto row = reprI.front();
     const auto col = reprJ.front();
-    const auto rowMajorIndex = row * edge.nextNode->edges.size() + col;
+    const auto radix =
+        registersSizes.at(static_cast<std::size_t>(edge.nextNode->varIndx));
+    const auto rowMajorIndex = row * radix + col;
     ComplexValue returnAmp{};
 
     if (!edge.nextNode->edges.at(rowMajorIndex).weight.approximatelyZero()) {
-- 
2.43.0


From 94e66c88630515a8c2d71fe311d45041884f0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 39/53] fix: give the transposed matrix node its outgoing edges

---
 include/dd/MDDPackage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 8deb5cb..38519de 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1882,7 +1882,8 @@ public:
       return result;
     }
 
-    std::vector<mEdge> newEdge{};
+    std::vector<mEdge> newEdge(edge.nextNode->edges.size(),
+                               dd::Edge<mNode>::zero);
     auto basicDim =
         registersSizes.at(static_cast<std::size_t>(edge.nextNode->varIndx));
 
-- 
2.43.0


From 802a968895896415c84dcc93f3f3fba87bb0db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 40/53] fix: conjugate the top weight in the inner product of
 two states

---
 include/dd/MDDPackage.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 38519de..908fedc 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1062,8 +1062,10 @@ public:
     if (y.nextNode->varIndx > circWidth) {
       circWidth = y.nextNode->varIndx;
     }
+    auto yConj = y;
+    yConj.weight = ComplexNumbers::conj(y.weight);
     const ComplexValue ip =
-        innerProduct(x, y, static_cast<QuantumRegister>(circWidth + 1));
+        innerProduct(x, yConj, static_cast<QuantumRegister>(circWidth + 1));
 
     [[maybe_unused]] const auto after = complexNumber.cacheCount();
     assert(after == before);
-- 
2.43.0


From 3e83c26decf29fd68eda2a8f5ea8803ac3b61b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 41/53] fix: tensor product of vector diagrams, and with an
 identity on mixed dimensions or with a factor

---
 include/dd/MDDPackage.hpp | 48 +++++++++++++--------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 908fedc..0ce1655 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1196,42 +1196,26 @@ private:
       return {r.nextNode, complexNumber.getCached(r.weight)};
     }
 
-    if (x.nextNode->identity) {
-      std::vector<Edge<Node>> newEdges(x.nextNode->edges.size(),
-                                       dd::Edge<Node>::zero);
+    if constexpr (std::is_same_v<Node, mNode>) {
+      if (x.nextNode->identity) {
+        auto e = y;
+        for (auto i = 0; i <= x.nextNode->varIndx; ++i) {
+          const auto idx =
+              incIdx ? static_cast<QuantumRegister>(e.nextNode->varIndx + 1)
+                     : e.nextNode->varIndx;
+          const auto radix = registersSizes.at(static_cast<std::size_t>(idx));
+          std::vector<Edge<Node>> eSucc(radix * radix, dd::Edge<Node>::zero);
+          for (auto j = 0U; j < radix; j++) {
+            eSucc.at(j + j * radix) = e;
+          }
 
-      for (auto i = 0U;
-           i < registersSizes.at(static_cast<std::size_t>(x.nextNode->varIndx));
-           i++) {
-        newEdges.at(i + i * (registersSizes.at(static_cast<std::size_t>(
-                                x.nextNode->varIndx)))) = y;
-      }
-      auto idx = incIdx ? static_cast<QuantumRegister>(y.nextNode->varIndx + 1)
-                        : y.nextNode->varIndx;
-
-      auto e = makeDDNode(idx, newEdges);
-
-      for (auto i = 0; i < x.nextNode->varIndx; ++i) {
-        std::vector<Edge<Node>> eSucc(e.nextNode->edges.size(),
-                                      dd::Edge<Node>::zero);
-        for (auto j = 0U;
-             j <
-             registersSizes.at(static_cast<std::size_t>(e.nextNode->varIndx));
-             j++) {
-          eSucc.at(j + j * (registersSizes.at(static_cast<std::size_t>(
-                               e.nextNode->varIndx)))) = e;
+          e = makeDDNode(idx, eSucc);
         }
 
-        idx = incIdx ? static_cast<QuantumRegister>(e.nextNode->varIndx + 1)
-                     : e.nextNode->varIndx;
-
-        e = makeDDNode(idx, eSucc);
+        e.weight = complexNumber.mulCached(x.weight, y.weight);
+        computeTable.insert(x, y, {e.nextNode, e.weight});
+        return e;
       }
-
-      e.weight = complexNumber.getCached(CTEntry::val(y.weight.real),
-                                         CTEntry::val(y.weight.img));
-      computeTable.insert(x, y, {e.nextNode, e.weight});
-      return e;
     }
 
     std::vector<Edge<Node>> edge(x.nextNode->edges.size(),
-- 
2.43.0


From 0e6f651dd5920e7ea770c9d5f092a82522896343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 42/53] fix: return an array for the basis vector of a single
 qudit

---
 .../quantum_circuit/components/extensions/matrix_factory.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index dc44438..b1cb8b7 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -173,9 +173,9 @@ def from_dirac_to_basis(vec: list[int], d: list[int] | int) -> NDArray[np.comple
         temp[basis] = 1
         basis_vecs.append(temp)
 
-    ret = basis_vecs[0]
+    ret = np.array(basis_vecs[0])
     for e_i in range(1, len(basis_vecs)):
-        ret = np.kron(np.array(ret), np.array(basis_vecs[e_i]))
+        ret = np.kron(ret, np.array(basis_vecs[e_i]))
 
     return ret
 
-- 
2.43.0


From 39177f981fc93ded7482b18a177e0d65573bd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 43/53] fix: label and read out registers with qudits of more
 than ten levels

---
 .../qudits/visualisation/mini_quantum_information.py  |  6 +++---
 src/mqt/qudits/visualisation/plot_information.py      | 11 +++--------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/mqt/qudits/visualisation/mini_quantum_information.py b/src/mqt/qudits/visualisation/mini_quantum_information.py
index be027b8..9291689 100644
--- a/src/mqt/qudits/visualisation/mini_quantum_information.py
+++ b/src/mqt/qudits/visualisation/mini_quantum_information.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 import operator
 from collections import Counter
 from functools import reduce
@@ -9,8 +10,6 @@ import numpy as np
 
 from mqt.qudits.quantum_circuit.components.extensions.matrix_factory import from_dirac_to_basis
 
-from .plot_information import state_labels
-
 if TYPE_CHECKING:
     from numpy.typing import NDArray
 
@@ -24,7 +23,8 @@ def get_density_matrix_from_counts(
     number_counts = Counter(results)
     probabilities = [(number_counts[num] / len(results)) for num in range(num_kets)]
     kets: list[NDArray[complex]] = [
-        from_dirac_to_basis([int(char) for char in state], circuit.dimensions) for state in state_labels(circuit)
+        from_dirac_to_basis(list(state), circuit.dimensions)
+        for state in itertools.product(*(range(d) for d in circuit.dimensions))
     ]
     density_matrix: NDArray[np.complex128] = np.zeros((num_kets, num_kets))
     for k, p in zip(kets, probabilities):
diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 02046dd..0a5be0b 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -88,14 +88,9 @@ def state_labels(circuit: QuantumCircuit) -> list[str]:
     logic = [list(range(d)) for d in dimensions]
     lut = [list(element) for element in itertools.product(*logic)]
 
-    string_states = []
-    for item in lut:
-        s = ""
-        for state in item:
-            s += str(state)
-        string_states.append(s)
-
-    return string_states
+    # levels of more than one digit need a separator to tell the states apart
+    separator = "" if max(dimensions) <= 10 else ","
+    return [separator.join(str(state) for state in item) for item in lut]
 
 
 def plot_state(
-- 
2.43.0


From 181f2857b30ac681c64ea93823ebae1d7bf0ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 44/53] fix: count the outcomes of an array of measurements

---
 src/mqt/qudits/visualisation/plot_information.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 0a5be0b..d4faaa5 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -109,7 +109,8 @@ def plot_state(
 
 def plot_counts(measurements: list[int] | NDArray[int], circuit: QuantumCircuit) -> list[int] | NDArray[int]:
     labels = state_labels(circuit)
-    counts = [measurements.count(i) for i in range(len(labels))]
+    outcomes = list(measurements)
+    counts = [outcomes.count(i) for i in range(len(labels))]
     counts = remap_result(counts, circuit)
 
     errors = len(labels) * [0]
-- 
2.43.0


From 53000e86abe1f89e519ff2605bc7a4a84f3b07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 45/53] fix: the circuit of a variational ansatz applies its
 factors in the order of the ansatz, on the lines of its target

---
 .../ansatz/instantiate.py                     | 36 +++++++++++++------
 .../layered_compilation.py                    | 10 +++---
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
index 592ec9d..58868c6 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
@@ -18,8 +18,13 @@ if typing.TYPE_CHECKING:
 
 
 def ansatz_decompose(
-    circuit: QuantumCircuit, u: Gate | None, params: list[list[float]], dims: list[int]
+    circuit: QuantumCircuit,
+    u: Gate | None,
+    params: list[list[float]],
+    dims: list[int],
+    lines: list[int] | None = None,
 ) -> Sequence[Gate]:
+    lines = [0, 1] if lines is None else lines
     if u is None:
         msg = "Custom Gate not set."
         raise ValueError(msg)
@@ -31,28 +36,37 @@ def ansatz_decompose(
             decomposition.append(u)
 
         decomposition.append(
-            CustomOne(circuit, "CUo_SUD", counter, generic_sud(params[i], dims[counter]), dims[counter])
+            CustomOne(circuit, "CUo_SUD", lines[counter], generic_sud(params[i], dims[counter]), dims[counter])
         )
 
         counter += 1
 
-    return decomposition
+    # the ansatz is a matrix product: its rightmost factor is the first gate of the circuit
+    return decomposition[::-1]
 
 
-def create_cu_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_cu_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: list[int] | None = None
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
     cu = Primitive.CUSTOM_PRIMITIVE
-    return ansatz_decompose(circuit, cu, params, dims)
+    return ansatz_decompose(circuit, cu, params, dims, lines)
 
 
-def create_ms_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ms_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: list[int] | None = None
+) -> Sequence[Gate]:
+    lines = [0, 1] if lines is None else lines
     params = params_splitter(p, dims)
-    ms = gates.MS(circuit, "MS", [0, 1], [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
+    ms = gates.MS(circuit, "MS", lines, [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
 
-    return ansatz_decompose(circuit, ms, params, dims)
+    return ansatz_decompose(circuit, ms, params, dims, lines)
 
 
-def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ls_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: list[int] | None = None
+) -> Sequence[Gate]:
+    lines = [0, 1] if lines is None else lines
     params = params_splitter(p, dims)
 
     if 2 in dims:
@@ -62,6 +76,6 @@ def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int])
     else:
         theta = np.pi
 
-    ls = gates.LS(circuit, "LS", [0, 1], [theta], dims)  # ls_gate(theta, dim)
+    ls = gates.LS(circuit, "LS", lines, [theta], dims)  # ls_gate(theta, dim)
 
-    return ansatz_decompose(circuit, ls, params, dims)
+    return ansatz_decompose(circuit, ls, params, dims, lines)
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index ad80b61..a50df66 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 import copy
 import typing
-from operator import itemgetter
 
 from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz import (
     create_cu_instance,
@@ -25,18 +24,19 @@ def variational_compile(
     layers: int,
     custom_primitive: Gate | None = None,
 ) -> QuantumCircuit:
-    dim_0, dim_1 = itemgetter(*target.reference_lines)(target.parent_circuit.dimensions)
+    lines = sorted(target.reference_lines)  # the order of the lines in the matrix of the target
+    dim_0, dim_1 = (target.parent_circuit.dimensions[line] for line in lines)
     Primitive.set_class_variables(custom_primitive)
     Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
     _best_layer, _best_error, parameters = binary_search_compile(layers, ansatz_type)
 
     circuit = copy.deepcopy(target.parent_circuit)
     if ansatz_type == "MS":  # MS is 0
-        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "LS":  # LS is 1
-        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "CU":
-        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1], lines)
     else:
         raise ValueError
     circuit.set_instructions(gates)
-- 
2.43.0


From 63a0420124a25c7f018fbe5732ddbb4cb181d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 46/53] fix: the sparsified circuit applies the rotations
 found, in their order and on the lines of the gate

---
 .../variational_twodit_compilation/sparsifier.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
index f012e91..c0da90a 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
@@ -36,17 +36,19 @@ def apply_rotations(
 def instantiate_rotations(circuit: QuantumCircuit, gate: Gate, params_list: list[float]) -> list[Gate]:
     gate = copy.deepcopy(gate)
     gate.parent_circuit = circuit
-    dims = typing.cast(list[int], gate.dimensions)
+    lines = sorted(gate.reference_lines)  # the order of the lines in the matrix of the gate
+    dims = [circuit.dimensions[line] for line in lines]
     params = params_splitter(params_list, dims)
 
     decomposition: list[Gate] = []
 
+    # the rightmost factor of the matrix product is the first gate of the circuit
     decomposition.extend((
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[0], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[1], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[1], generic_sud(params[3], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[0], generic_sud(params[2], dims[0]), dims[0]),
         gate,
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[2], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[3], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[1], generic_sud(params[1], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[0], generic_sud(params[0], dims[0]), dims[0]),
     ))
 
     return decomposition
@@ -121,7 +123,8 @@ def objective_function(thetas: list[float], m: NDArray[np.complex128, np.complex
 
 def sparsify(gate: Gate, tol: float = 0.1) -> QuantumCircuit:
     m = gate.to_matrix()
-    dims = typing.cast(list[int], gate.dimensions)
+    # the order of the lines in the matrix of the gate
+    dims = [gate.parent_circuit.dimensions[line] for line in sorted(gate.reference_lines)]
 
     Optimizer.set_class_variables(m, tol, dims[0], dims[1])
     bounds = Optimizer.return_bounds()
-- 
2.43.0


From 218732f0459c893bd7cb6bf9323b6ec57fe4640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 47/53] fix: a layer search that runs out of time reports no
 solution, and its timer ends with it

---
 .../ansatz/ansatz_solve_n_search.py                             | 2 ++
 .../twodit/variational_twodit_compilation/opt/optimizer.py      | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
index 6251756..18d9889 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
@@ -52,6 +52,7 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
 
     result_queue: queue.Queue[tuple[float, list[float]]] = queue.Queue()
 
+    Optimizer.timer_var = False
     thread = threading.Thread(target=Optimizer.solve_anneal, args=(bounds, ansatz_type, result_queue))
     thread.start()
 
@@ -59,6 +60,7 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
     timer.start()
 
     thread.join()
+    timer.cancel()
     f, x = result_queue.get()
 
     return f, x
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
index e0ec224..b96a6ec 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
@@ -139,4 +139,4 @@ class Optimizer:
             result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
 
         except TimeoutError:
-            result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
+            result_queue.put((np.inf, []))
-- 
2.43.0


From 19ad5537a959151cd3681069a85407e95da5b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 48/53] fix: variational_compile reports a failed search
 instead of returning an empty circuit

---
 .../variational_twodit_compilation/layered_compilation.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index a50df66..8ec8cc9 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -29,6 +29,9 @@ def variational_compile(
     Primitive.set_class_variables(custom_primitive)
     Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
     _best_layer, _best_error, parameters = binary_search_compile(layers, ansatz_type)
+    if len(parameters) == 0:
+        msg = f"No {ansatz_type} ansatz of at most {layers} layers reaches the tolerance {tolerance}."
+        raise ValueError(msg)
 
     circuit = copy.deepcopy(target.parent_circuit)
     if ansatz_type == "MS":  # MS is 0
-- 
2.43.0


From 3f1b2394fdb5e3ae2da23e49ce66f551bea7f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 49/53] fix: the ansatz of a daggered custom primitive uses the
 daggered gate

---
 .../twodit/variational_twodit_compilation/ansatz/ansatz_gen.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
index 48a2ec2..aeb35c6 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
@@ -39,6 +39,7 @@ def prepare_ansatz(u: Gate | None, params: list[list[float]], dims: list[int]) -
 def cu_ansatz(p: list[float], dims: list[int]) -> NDArray[np.complex128, np.complex128]:
     params = params_splitter(p, dims)
     cu = Primitive.CUSTOM_PRIMITIVE
+    cu = None if cu is None else cu.to_matrix(identities=0)
     return prepare_ansatz(cu, params, dims)
 
 
-- 
2.43.0


From 1254215a412d3a4d650d518bda14b1bf32a59ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 50/53] fix: apply_gate_to_tlines sizes its result by the
 dimensions of the qudits

---
 .../compiler/compilation_minitools/numerical_ansatz_utils.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py b/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py
index 53ced3d..058f33d 100755
--- a/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py
+++ b/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py
@@ -56,7 +56,8 @@ def apply_gate_to_tlines(
     elif isinstance(targets, int):
         targets = [targets]
 
-    subset_gate = np.zeros((2**circuits_size, 2**circuits_size), dtype=np.complex128)
+    size = int(np.prod(dims))
+    subset_gate = np.zeros((size, size), dtype=np.complex128)
     for i in targets:
         subset_gate += gate_expand_to_circuit(gate_matrix, circuits_size, i, dims)
     return subset_gate
-- 
2.43.0


From 6415aff5a9f5fd5be6f724258dbf8c8ebb21e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 51/53] fix: a level graph keeps its circuit and line when two
 nodes are swapped

---
 src/mqt/qudits/core/level_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/core/level_graph.py b/src/mqt/qudits/core/level_graph.py
index 3d1cb88..3835dda 100644
--- a/src/mqt/qudits/core/level_graph.py
+++ b/src/mqt/qudits/core/level_graph.py
@@ -159,7 +159,7 @@ class LevelGraph(nx.Graph):  # type: ignore[misc]
     def swap_nodes(self, node_a: int, node_b: int) -> LevelGraph:
         nodes = self.swap_node_attributes(node_a, node_b)
         # ------------------------------------------------
-        new_graph = LevelGraph([], nodes)
+        new_graph = LevelGraph([], nodes, qudit_index=self.qudit_index, og_circuit=self.og_circuit)
 
         edges = self.deep_copy_func(list(self.edges))
 
-- 
2.43.0


From 4b09968e30d7469314034e3653f8743941783755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 52/53] fix: replacing gates in a lane removes the gates of the
 interval, not equal ones before it

---
 src/mqt/qudits/core/lanes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index 30b7d91..d0edd18 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -114,10 +114,7 @@ class Lanes:
 
         # Remove objects within the specified interval [start_index, end_index]
         ordering_id = gates_of_line[start_index][0]
-        objects_to_remove = [gates_of_line[i] for i in range(start_index, min(end_index + 1, len(gates_of_line)))]
-
-        for obj in objects_to_remove:
-            gates_of_line.remove(obj)
+        del gates_of_line[start_index : end_index + 1]
 
         # Add new_gate at the start_index
         gates_of_line.insert(start_index, (ordering_id, new_gate))
-- 
2.43.0


From 331ad3c233ff67e3d468f7e75ff85d70e7a55eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 53/53] fix: saving a compiled circuit writes the matrices of
 its custom gates

---
 src/mqt/qudits/quantum_circuit/circuit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index bef701a..a32c92b 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -392,14 +392,18 @@ class QuantumCircuit:
             str: The full path of the saved file.
         """
         # Combine the file path and name to get the full file path
-        self.path_save = file_path
+        # gates that come out of a compiler pass may still belong to the circuit they were compiled from
+        circuits = [self, *(gate.parent_circuit for gate in self.instructions)]
+        for circuit in circuits:
+            circuit.path_save = file_path
         full_file_path = Path(file_path) / (file_name + ".qasm")
 
         # Write the text to the file
         with full_file_path.open("w+") as file:
             file.write(self.to_qasm())
 
-        self.path_save = None
+        for circuit in circuits:
+            circuit.path_save = None
         return str(full_file_path)
 
     def load_from_file(self, file_path: str) -> None:
-- 
2.43.0

