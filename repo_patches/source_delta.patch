From 33bdfe28d1f5a8684a05848fa087164d9d06f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 01/55] fix: Circuit.reset(keep_registers=False) left stale
 cached qubits and bits

---
 dwave/gate/circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 17353f2..31f3c19 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -353,6 +353,10 @@ class Circuit:
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
+
+            # remove cached attributes since the registers have been removed
+            self.__dict__.pop("qubits", None)
+            self.__dict__.pop("bits", None)
         else:
             for bit in self.bits:
                 bit.reset()
-- 
2.43.0


From 75acce97e26b8d3c2a833e84f861274f8ebf7be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:56 +0000
Subject: [PATCH 02/55] fix: Circuit.add_bit replaced a passed bit with value 0
 by a new bit

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 31f3c19..dc4b13e 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -418,7 +418,7 @@ class Circuit:
         if self.bits and bit in self.bits:
             raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
 
-        self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
+        self.cregisters[creg_label].add(Bit(str(self.num_bits)) if bit is None else bit)
 
         # remove cached 'bits' attribute when updating 'cregisters'
         # will always be in 'self.__dict__' since 'self.bits' is called above
-- 
2.43.0


From be0df5aa1e0e02b9bd86b32853418f20ffe9b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 03/55] fix: variables with value 0 were treated as having no
 value

---
 dwave/gate/operations/base.py | 2 +-
 dwave/gate/primitives.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d2dd45b..7d0354f 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -401,7 +401,7 @@ class ParametricOperation(Operation):
             if isinstance(p, Variable):
                 if parameters:
                     op.parameters[i] = parameters[i]
-                elif p.value:
+                elif p.value is not None:
                     op.parameters[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
diff --git a/dwave/gate/primitives.py b/dwave/gate/primitives.py
index 38c6721..559cda0 100644
--- a/dwave/gate/primitives.py
+++ b/dwave/gate/primitives.py
@@ -175,13 +175,13 @@ class Variable:
         """Two variables are equal if they share the same label."""
         if isinstance(object, Variable):
             return self.name == object.name
-        if self._value and self._value == object:
+        if self._value is not None and self._value == object:
             return True
         return False
 
     def __repr__(self) -> str:
         """The representation of the variable is its label."""
-        if self._value:
+        if self._value is not None:
             return str(self.value)
         return f"{{{self.name}}}"
 
-- 
2.43.0


From 264dc5fa8eac21ec8a123fb03dd325fb9cb9ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 04/55] fix: registers replaced bits and variables by integers
 when their value equals their index

---
 dwave/gate/registers/cyregister.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index c737823..26d3f03 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -119,7 +119,9 @@ cdef class cyRegister:
 
         idx = self._stop
 
-        if idx != v:
+        # only numbers can be represented by their index; note that other items (e.g., bits
+        # with a set value) may compare equal to an integer
+        if not (isinstance(v, Number) and idx == v):
             self._label_to_index[v] = idx
             self._index_to_label[idx] = v
 
@@ -182,12 +184,12 @@ cdef class cyRegister:
         """
         for submap in _iter_safe_relabels(mapping, self):
             for old, new in submap.items():
-                if old == new:
+                if old == new and isinstance(old, Number) == isinstance(new, Number):
                     continue
 
                 idx = self._label_to_index.pop(old, old)
 
-                if new != idx:
+                if not (isinstance(new, Number) and idx == new):
                     self._label_to_index[new] = idx
                     self._index_to_label[idx] = new  # overwrites old idx
                 else:
-- 
2.43.0


From 970d857af2ea5e40e4bd218bd22fa432d1da5801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 05/55] fix: register slices with negative or out-of-range
 bounds did not follow sequence semantics

---
 dwave/gate/registers/cyregister.pyx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 26d3f03..d9b3bf6 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -63,13 +63,9 @@ cdef class cyRegister:
         if not isinstance(idx, slice):
             raise TypeError(f"indices must be integers or slices, not {type(idx)}")
 
-        cdef Py_ssize_t start = 0 if idx.start is None else idx.start
-        cdef Py_ssize_t stop = self.size() if idx.stop is None else idx.stop
-        cdef Py_ssize_t step = 1 if idx.step is None else idx.step
-
         cdef Py_ssize_t i
         cdef cyRegister new = type(self)()
-        for i in range(start, stop, step):
+        for i in range(*idx.indices(self.size())):
             new._append(self.at(i), permissive=False)
         return new
 
-- 
2.43.0


From 31ccc3b60fd8975076cadc0e9ef6991033258719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 06/55] fix: copied and combined registers were missing the
 frozen attribute

---
 dwave/gate/registers/registers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 431a100..7c16c68 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -45,6 +45,9 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         data: Sequence of hashable data items (defaults to empty).
     """
 
+    # copies are created without calling '__init__' and are not frozen by default
+    _frozen: bool = False
+
     def __init__(self, data: Optional[Sequence[Data]] = None) -> None:
         self._frozen = False
         super().__init__(data or [])
-- 
2.43.0


From ec9149ce0b056247c2549a6bfcc2489988620ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 07/55] fix: density matrix of a pure state was missing the
 complex conjugation

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index dc4b13e..fc702f3 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -251,7 +251,7 @@ class Circuit:
     def density_matrix(self) -> Optional[NDArray]:
         """The density matrix representation of the state."""
         if self._state is not None and self._density_matrix is None:
-            self._density_matrix = self._state.reshape(-1, 1) @ self._state.reshape(1, -1)
+            self._density_matrix = self._state.reshape(-1, 1) @ self._state.conj().reshape(1, -1)
         return self._density_matrix
 
     def set_state(self, state: NDArray, force: bool = False, normalize: bool = False) -> None:
-- 
2.43.0


From 5f72e0666be636cab86309cd1aadadf14fe97b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 08/55] fix: mixed states were normalized by the Frobenius norm
 instead of the trace

---
 dwave/gate/circuit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index fc702f3..6c25eda 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -270,7 +270,7 @@ class Circuit:
             raise CircuitError("State already set. Use 'force=True' to force set new state.")
 
         if normalize:
-            state = state / np.linalg.norm(state)
+            state = state / self._norm(state)
 
         self._assert_state(state)
 
@@ -282,13 +282,18 @@ class Circuit:
             self._state = None
             self._density_matrix = state
 
+    @staticmethod
+    def _norm(state: NDArray) -> complex:
+        """The norm of a pure state (vector) or the trace of a mixed state (density matrix)."""
+        return np.trace(state) if state.ndim == 2 else np.linalg.norm(state)
+
     def _assert_state(self, state: NDArray) -> None:
         """Check whether a state is the correct shape and is normalized."""
         size = 2 << (self.num_qubits - 1)
         if state.shape != (size,) and state.shape != (size, size):
             raise ValueError(f"State has incorrect shape. Should have size {size}.")
 
-        if not np.isclose(np.linalg.norm(state), 1):
+        if not np.isclose(self._norm(state), 1):
             raise ValueError("State is not normalized.")
 
     @property
-- 
2.43.0


From a1121375dee4ba9cfdea20c7673e2b3f19f659ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 09/55] fix: setting the state of a circuit without qubits
 failed with a negative shift count

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 6c25eda..ce1bf07 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -289,7 +289,7 @@ class Circuit:
 
     def _assert_state(self, state: NDArray) -> None:
         """Check whether a state is the correct shape and is normalized."""
-        size = 2 << (self.num_qubits - 1)
+        size = 1 << self.num_qubits
         if state.shape != (size,) and state.shape != (size, size):
             raise ValueError(f"State has incorrect shape. Should have size {size}.")
 
-- 
2.43.0


From 0cb3f301a578fa7b5323d8cc7bb7209e9916a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 10/55] fix: mixed state simulation ignored the little_endian
 argument

---
 dwave/gate/simulator/simulator.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 9dd3f66..5f2db64 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -161,7 +161,7 @@ def simulate(
     rng = np.random.default_rng(rng_seed)
 
     if mixed_state:
-        state = _simulate_circuit_density_matrix(circuit, rng)
+        state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
         state = np.zeros(1 << num_qubits, dtype=np.complex128)
         state[0] = 1
@@ -246,5 +246,8 @@ def _simulate_circuit_density_matrix(
                 conjugate_gate=True,
             )
     density_matrix = state.reshape((1 << num_qubits, 1 << num_qubits))
+    if little_endian:
+        # the virtual (conjugated) qubits are the most significant ones, i.e., the row index
+        density_matrix = np.ascontiguousarray(density_matrix.T)
 
     return density_matrix
-- 
2.43.0


From 509e4a69f7c9b9eb13f1ddf4e9cbe781ca3a776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 11/55] fix: repeated simulations duplicated the measured
 qubits when sampling a measurement

---
 dwave/gate/simulator/simulator.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 5f2db64..90c1573 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -207,6 +207,7 @@ def sample_qubit(
 
 def _measure(op, state, targets, rng):
     op._measured_state = state.copy()
+    op._measured_qubit_indices = []
 
     for idx, t in enumerate(targets):
         m = sample_qubit(t, state, rng)
-- 
2.43.0


From 70b735e3ce2cba910ab8eb1dd71b983ef7449ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 12/55] fix: simulating a barrier, or an unsupported
 multi-qubit operation, raised an AttributeError

---
 dwave/gate/simulator/simulator.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 90c1573..c9f216b 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -53,6 +53,9 @@ def apply_instruction(
     if op.is_blocked:
         return
 
+    if isinstance(op, ops.Barrier):
+        return
+
     if isinstance(op, ops.Measurement):
         if little_endian:
             raise CircuitError("Measurements only supports big-endian qubit indexing.")
@@ -120,7 +123,7 @@ def apply_instruction(
         # apply single qubit gate
         if op.num_qubits != 1:
             raise ValueError(
-                f"simulator encountered unknown multi-qubit operation: {op.label}"
+                f"simulator encountered unknown multi-qubit operation: {op.name}"
             )
         gate = op.matrix
         if conjugate_gate:
-- 
2.43.0


From 97c006ea04b32253d8365205d3a877a7c424c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 13/55] fix: applying a circuit dropped conditions and failed
 on unstored measurements

---
 dwave/gate/circuit.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index ce1bf07..32c4490 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -115,6 +115,7 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
+        bit_map = {}
         if bits:
             if isinstance(bits, Bit):
                 bits = [bits]
@@ -137,22 +138,24 @@ class Circuit:
             )
 
             if isinstance(op, Measurement):
-                if bits:
-                    mapped_bits = [bit_map[qb] for qb in op.bits or []]
-                    op.__class__(qubits=mapped_qubits) | mapped_bits
-                    continue
-                else:
+                if not bits:
                     warnings.warn(
                         "Measurements not stored in circuit bits. "
                         "Must pass bits to circuit call."
                     )
 
             if isinstance(op, ParametricOperation):
-                op.__class__(op.parameters, qubits=mapped_qubits)
+                new_op = op.__class__(op.parameters, qubits=mapped_qubits)
             elif isinstance(op, ControlledOperation):
-                op.__class__(*mapped_qubits)
+                new_op = op.__class__(*mapped_qubits)
             else:
-                op.__class__(qubits=mapped_qubits)
+                new_op = op.__class__(qubits=mapped_qubits)
+
+            if isinstance(op, Measurement) and bits and op.bits:
+                new_op | [bit_map[b] for b in op.bits]
+
+            if op._cond:
+                new_op.conditional([bit_map.get(b, b) for b in op._cond])
 
     @property
     def qregisters(self) -> Mapping[Hashable, QuantumRegister]:
-- 
2.43.0


From ca01f1a09ff26e772c5a7e354356bd2941a8a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 14/55] fix: parameters were lost when applying a parametric
 circuit within a parametric context

---
 dwave/gate/circuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 32c4490..24c833a 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -145,7 +145,10 @@ class Circuit:
                     )
 
             if isinstance(op, ParametricOperation):
-                new_op = op.__class__(op.parameters, qubits=mapped_qubits)
+                # pass variable values (if set) instead of variables, since the latter belong to
+                # this circuit and are reset when exiting the active context
+                params = [p if getattr(p, "value", None) is None else p.value for p in op.parameters]
+                new_op = op.__class__(params, qubits=mapped_qubits)
             elif isinstance(op, ControlledOperation):
                 new_op = op.__class__(*mapped_qubits)
             else:
-- 
2.43.0


From adce034eb67d6d1d80f4b36a2f2b3c3ae15aa89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 15/55] fix: applying a circuit failed for controlled
 operations with several controls

---
 dwave/gate/circuit.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 24c833a..934d13c 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -132,7 +132,6 @@ class Circuit:
 
             # NOTE: avoid circular imports; needed to check operation type
             from dwave.gate.operations.base import (
-                ControlledOperation,
                 Measurement,
                 ParametricOperation,
             )
@@ -149,8 +148,6 @@ class Circuit:
                 # this circuit and are reset when exiting the active context
                 params = [p if getattr(p, "value", None) is None else p.value for p in op.parameters]
                 new_op = op.__class__(params, qubits=mapped_qubits)
-            elif isinstance(op, ControlledOperation):
-                new_op = op.__class__(*mapped_qubits)
             else:
                 new_op = op.__class__(qubits=mapped_qubits)
 
-- 
2.43.0


From bfed33f8465b194c050e6b85760eeae914c1047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 16/55] fix: comparing a parametric operation with a
 non-parametric one raised an AttributeError

---
 dwave/gate/operations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 7d0354f..b6c03c2 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -371,7 +371,7 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
-        param_eq = op.parameters == self.parameters
+        param_eq = getattr(op, "parameters", None) == self.parameters
         return param_eq and super().__eq__(op)
 
     @property
-- 
2.43.0


From 87a3a268a3bbee29bafa0590000e0c4aaf28e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 17/55] fix: custom parametric operations assigned parameters
 by occurrence instead of by variable

---
 dwave/gate/operations/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index b6c03c2..5806717 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -133,14 +133,14 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             """
             circuit_copy = copy.deepcopy(circuit)
             if circuit.parametric:
-                parameters = self.parameters.copy()
+                # circuit variables are replaced by the parameters with the corresponding index
+                parameters = dict(zip(circuit._parameter_register, self.parameters))
 
                 for i, op in enumerate(circuit_copy.circuit):
                     if isinstance(op, ParametricOperation):
                         for j, param in enumerate(op.parameters):
                             if isinstance(param, Variable):
-                                circuit_copy.circuit[i].parameters[j] = parameters.pop(0)  # type: ignore
-                            self._matrix
+                                circuit_copy.circuit[i].parameters[j] = parameters[param]  # type: ignore
 
             return build_unitary(circuit_copy)
 
-- 
2.43.0


From 5613d0d75459905ad1689e1a9b207d8b762f6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 18/55] fix: build_unitary returned a stale cached unitary
 after the circuit had changed

---
 dwave/gate/tools/unitary.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 183b8f7..6ea1481 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -21,7 +21,6 @@ __all__ = [
 
 import itertools
 from collections.abc import Sequence
-from functools import lru_cache
 from typing import TYPE_CHECKING, Optional, Union
 
 import numpy as np
@@ -40,7 +39,6 @@ if TYPE_CHECKING:
 # TODO: exchange for something better; only here for testing matrix creation
 # for custom operations; controlled operations only works with single
 # control and target; no support for any other multi-qubit gates
-@lru_cache(maxsize=128)
 def build_unitary(circuit) -> NDArray:
     """Builds the circuit unitary by multiplying together the operation matrices.
 
-- 
2.43.0


From dad84fa5dcc805c93e0930eb10a95064cdcc2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 19/55] fix: unitaries of empty circuits were real, failing
 when simulated as custom operations

---
 dwave/gate/tools/unitary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 6ea1481..eaa95ff 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -48,7 +48,7 @@ def build_unitary(circuit) -> NDArray:
     Returns:
         NDArray: Unitary matrix representation of the circuit.
     """
-    state = np.eye(2**circuit.num_qubits)
+    state = np.eye(2**circuit.num_qubits, dtype=np.complex128)
     # apply operations from first to last (the order in which they're
     # applied within the context, stored sequentially in the circuit)
     for op in circuit.circuit:
-- 
2.43.0


From a08a2147260679c22aea6576effb499ddd77d607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 20/55] fix: build_unitary failed for circuits with parametric
 controlled operations

---
 dwave/gate/tools/unitary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index eaa95ff..354a69a 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -100,8 +100,11 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     """
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
+    target_operation = op.target_operation
+    if hasattr(op, "parameters"):
+        target_operation = target_operation(op.parameters)
     controlled_unitary = build_controlled_unitary(
-        control_idx, target_idx, op.target_operation.matrix, len(qubits)
+        control_idx, target_idx, target_operation.matrix, len(qubits)
     )
     return controlled_unitary @ state
 
-- 
2.43.0


From 810d40e1d72dd73a823dbac2dd933bfcee31d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 21/55] fix: setting the qubits of a controlled operation did
 not update its control and target

---
 dwave/gate/operations/base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 5806717..af33c2f 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -567,6 +567,18 @@ class ControlledOperation(Operation):
         )
         return matrix
 
+    @property
+    def qubits(self) -> Optional[tuple[Qubit, ...]]:
+        """Qubits that the operation is applied to; control qubits followed by target qubits."""
+        return self._qubits
+
+    @qubits.setter
+    def qubits(self, qubits: Sequence[Qubit]) -> None:
+        """Set the qubits that the operation should be applied to."""
+        Operation.qubits.fset(self, qubits)
+        self._control = self._qubits[: self.num_control]
+        self._target = self._qubits[self.num_control :]
+
     @property
     def control(self) -> Optional[tuple[Qubit]]:
         """Control qubit(s)."""
-- 
2.43.0


From 1fe5f28062e8f7cd2345ca7d147b13295f377473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 22/55] fix: exiting a nested frozen context unfroze the outer
 frozen context

---
 dwave/gate/circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 934d13c..23e6393 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -857,13 +857,17 @@ class CircuitContext:
         """
 
         class FrozenContext:
+            def __init__(self) -> None:
+                self._previous: list[bool] = []
+
             def __enter__(self) -> None:
                 if cls.active_context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
+                self._previous.append(cls.active_context._frozen)
                 cls.active_context._frozen = True
 
             def __exit__(self, _, __, ___) -> None:
-                cls.active_context._frozen = False
+                cls.active_context._frozen = self._previous.pop()
 
         return FrozenContext()
 
-- 
2.43.0


From 7d9220ad430a9cbf2b8ef0da59c2daeeb6b07a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 23/55] fix: adding a register without a label failed if the
 default label was in use

---
 dwave/gate/circuit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 23e6393..d4e9a85 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -442,7 +442,10 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"qreg{len(self.qregisters)}"
+            idx = len(self.qregisters)
+            while f"qreg{idx}" in self.qregisters:
+                idx += 1
+            label = f"qreg{idx}"
 
         if label in self._qregisters:
             raise ValueError(f"Quantum register {label} already present in the circuit.")
@@ -464,7 +467,10 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"creg{len(self.cregisters)}"
+            idx = len(self.cregisters)
+            while f"creg{idx}" in self.cregisters:
+                idx += 1
+            label = f"creg{idx}"
 
         if label in self._cregisters:
             raise ValueError(f"Classical register {label} already present in the circuit")
-- 
2.43.0


From 6ea5d6feb8a509ea8bac6188f313b8dace739458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 24/55] fix: rejected additions of (qu)bits left an empty
 register in the circuit

---
 dwave/gate/circuit.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d4e9a85..b254dbe 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -384,6 +384,10 @@ class Circuit:
         if qubit is not None and not isinstance(qubit, Qubit):
             raise TypeError(f"Can only add qubits to circuit. Got '{type(qubit).__name__}'.")
 
+        # NOTE: same qubit in different registers NOT allowed
+        if qubit in self.qubits:
+            raise ValueError(f"Qubit '{qubit}' already in use in the circuit.")
+
         if qreg_label is not None:
             if qreg_label not in self.qregisters:
                 self.add_qregister(label=qreg_label)
@@ -392,10 +396,6 @@ class Circuit:
                 self.add_qregister()
             qreg_label = list(self.qregisters)[0]
 
-        # NOTE: same qubit in different registers NOT allowed
-        if qubit in self.qubits:
-            raise ValueError(f"Qubit '{qubit}' already in use in quantum register '{qreg_label}'.")
-
         self.qregisters[qreg_label].add(qubit or Qubit(str(self.num_qubits)))
 
         # remove cached 'qubits' attribute when updating 'qregisters';
@@ -414,6 +414,10 @@ class Circuit:
         if bit is not None and not isinstance(bit, Bit):
             raise TypeError(f"Can only add bits to circuit. Got '{type(bit).__name__}'.")
 
+        # NOTE: same bit in different registers NOT allowed
+        if self.bits and bit in self.bits:
+            raise ValueError(f"Bit '{bit}' already in use in the circuit.")
+
         if creg_label is not None:
             if creg_label not in self.cregisters:
                 self.add_cregister(label=creg_label)
@@ -422,10 +426,6 @@ class Circuit:
                 self.add_cregister()
             creg_label = list(self.cregisters)[0]
 
-        # NOTE: same bit in different registers NOT allowed
-        if self.bits and bit in self.bits:
-            raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
-
         self.cregisters[creg_label].add(Bit(str(self.num_bits)) if bit is None else bit)
 
         # remove cached 'bits' attribute when updating 'cregisters'
-- 
2.43.0


From bb6d7114a3d3146db7455549251f3c7d973924d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 25/55] fix: getting a (qu)bit by label ignored register labels
 that are falsy

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index b254dbe..d7347e1 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -504,7 +504,7 @@ class Circuit:
             Qubit: Qubit with the specified label. If there are several with the same name,
             only the first occuring qubit will be returned unless ``return_all`` is ``True``.
         """
-        if qreg_label:
+        if qreg_label is not None:
             qregisters = self.qregisters[qreg_label]
         else:
             qregisters = itertools.chain.from_iterable(self.qregisters.values())
@@ -560,7 +560,7 @@ class Circuit:
             Bit: Bit with the specified label. If there are several with the same name,
             only the first occuring bit will be returned unless ``return_all`` is ``True``.
         """
-        if creg_label:
+        if creg_label is not None:
             cregisters = self.cregisters[creg_label]
         else:
             cregisters = itertools.chain.from_iterable(self.cregisters.values())
-- 
2.43.0


From cc5bf522ec2354e42c22c5b7baea8528140f3d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 26/55] fix: OpenQASM register declarations ignored register
 labels that are falsy

---
 dwave/gate/registers/registers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 7c16c68..3dc0432 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -132,7 +132,7 @@ class QuantumRegister(Register[Qubit]):
         Returns:
             str: OpenQASM string representation of the circuit.
         """
-        if label:
+        if label is not None:
             return f"qreg {str(label)}[{len(self)}]"
 
         idx_str = str(idx) if idx is not None else ""
@@ -163,7 +163,7 @@ class ClassicalRegister(Register[Bit]):
         Returns:
             str: OpenQASM string representation of the circuit.
         """
-        if label:
+        if label is not None:
             return f"creg {str(label)}[{len(self)}]"
 
         idx_str = str(idx) if idx is not None else ""
-- 
2.43.0


From 4f7261e52777f12f323836ee155dd56adc5d2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 27/55] fix: OpenQASM gate definitions were repeated for each
 use of a gate

---
 dwave/gate/circuit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d7347e1..c8cb900 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -651,9 +651,13 @@ class Circuit:
                 label = f"q{label}" if len(self.qregisters) != 1 else "q"
             mapping[qb] = label, idx
 
+        declarations = []
         for op in self.circuit:
-            if gate_definitions and hasattr(op, "_qasm_decl"):
-                header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
+            declaration = getattr(op, "_qasm_decl", None)
+            if gate_definitions and declaration is not None and declaration not in declarations:
+                # a gate must only be defined once
+                declarations.append(declaration)
+                header_str += "\n" + declaration + "\n"
             qasm_str += op.to_qasm(mapping) + ";\n"
 
         return header_str.strip() + "\n\n" + qasm_str.strip()
-- 
2.43.0


From 4af97a581e2ceb568080476d0289a86ee69f677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 28/55] fix: QIR qubits and results of circuits with several
 registers collided

---
 dwave/gate/qir/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index c98a62b..0cf6f06 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -365,8 +365,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             block = "measurements"
 
             for qb, b in zip(op.qubits, op.bits):
-                _, qubit_idx = circuit.find_qubit(qb)
-                _, bit_idx = circuit.find_bit(b)
+                qubit_idx = circuit.qubits.index(qb)
+                bit_idx = circuit.bits.index(b)
                 args = (module.qubits[qubit_idx], module.results[bit_idx])
 
                 measurement_instruction = Instruction(InstrType.MEASUREMENT, pyqir_op, args)
@@ -386,7 +386,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 args.extend(op.parameters)
 
             for qb in op.qubits:
-                _, qubit_idx = circuit.find_qubit(qb)
+                qubit_idx = circuit.qubits.index(qb)
                 args.append(module.qubits[qubit_idx])
 
             if type_ is InstrType.EXTERNAL:
-- 
2.43.0


From 2b68013c3c90109cf1852090950da952048dd3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 29/55] fix: external parametric QIR functions were declared
 with the wrong argument order

---
 dwave/gate/qir/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 0cf6f06..1f44cd0 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -356,7 +356,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             param_type = module.Types.DOUBLE
 
             num_parameters = getattr(op, "num_parameters", 0)
-            parameter_types = [qubit_type] * op.num_qubits + [param_type] * num_parameters
+            parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
             module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
-- 
2.43.0


From 3e1cc1eebf083c3ea0a8065fd8de0e3a2e484c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 30/55] fix: compiling circuits with operations to skip
 (identity) to QIR was rejected

---
 dwave/gate/qir/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 1f44cd0..8088493 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -395,6 +395,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 body_instruction = Instruction(InstrType.BASE, pyqir_op, args)
 
             module.add_instruction("body", body_instruction)
+        elif type_ is InstrType.SKIP:
+            # has no effect and is ignored when compiling to QIR (e.g., identity operation)
+            continue
         elif type_ is InstrType.DECOMPOSE or (type_ is InstrType.EXTERNAL and not add_external):
             raise NotImplementedError("Operation decompositions not supported.")
         else:
-- 
2.43.0


From d9535f2c35278ed27a95ca27cdb6bbd7a2c0606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 31/55] fix: loading QIR failed if a qubit was measured without
 any gates applied to it

---
 dwave/gate/qir/loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 3e84ab0..6869b43 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -141,6 +141,8 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
+    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
+        circuit.add_qubit()
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
         circuit.add_bit()
 
-- 
2.43.0


From 7e4bda8b6f21e5b316b4f6c0dd54876d7dd50fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 32/55] fix: loading QIR failed for operations with several
 parameters

---
 dwave/gate/qir/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 6869b43..11caed5 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -124,7 +124,8 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
 
                     circuit.unlock()
                     with circuit.context as reg:
-                        getattr(ops, op_name)(*params, qubits=[reg.q[qubit] for qubit in qubits])
+                        args = [params] if params else []
+                        getattr(ops, op_name)(*args, qubits=[reg.q[qubit] for qubit in qubits])
 
     # finally, add measurements (if any) to circuit
     if meas_qubits:
-- 
2.43.0


From c390aa054a00a5526e9d41eabf0b10031a9819f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 33/55] fix: external QIR functions were redeclared with
 different names for each use

---
 dwave/gate/qir/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 8088493..b84d62b 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -358,7 +358,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             num_parameters = getattr(op, "num_parameters", 0)
             parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
-            module.add_external_function(pyqir_op, parameter_types=parameter_types)
+            # only declare the function once; LLVM renames functions with the same name
+            if pyqir_op not in module._external_functions:
+                module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
         args = []
         if type_ is InstrType.MEASUREMENT:
-- 
2.43.0


From 9c5ad80340f4304bc17a526ce987bbe230987e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 34/55] fix: external parametric QIR functions could not be
 compiled with integer parameters

---
 dwave/gate/qir/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index b84d62b..ef7a239 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -385,7 +385,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
 
             # if isinstance(op, ParametricOperation):
             if hasattr(op, "parameters"):
-                args.extend(op.parameters)
+                args.extend(float(p) for p in op.parameters)
 
             for qb in op.qubits:
                 qubit_idx = circuit.qubits.index(qb)
-- 
2.43.0


From f35c6f22b72c302184d75c6e92190870787a5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 35/55] fix: transpiling to QIR and OpenQASM silently dropped
 conditions on operations

---
 dwave/gate/circuit.py      | 6 ++++++
 dwave/gate/qir/compiler.py | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index c8cb900..1588a24 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -653,6 +653,12 @@ class Circuit:
 
         declarations = []
         for op in self.circuit:
+            if op._cond:
+                # OpenQASM 2.0 only supports comparing whole registers with integers
+                raise NotImplementedError(
+                    "Conditional operations are not supported by OpenQASM 2.0 transpilation."
+                )
+
             declaration = getattr(op, "_qasm_decl", None)
             if gate_definitions and declaration is not None and declaration not in declarations:
                 # a gate must only be defined once
diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index ef7a239..5f2e0a8 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -350,6 +350,11 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
 
     block = "body"
     for op in circuit.circuit:
+        if op._cond:
+            raise NotImplementedError(
+                "Conditional operations are not supported when compiling to QIR."
+            )
+
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
         if add_external and type_ is InstrType.EXTERNAL:
             qubit_type = module.Types.QUBIT
-- 
2.43.0


From 2a1465ebabd4c2cb55f97b271bfe4d73e0c2e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 36/55] fix: the first use of a controlled operation accepted
 any number of qubits

---
 dwave/gate/operations/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index af33c2f..a68a6c2 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -212,9 +212,11 @@ class Operation(metaclass=ABCLockedAttr):
         if isinstance(qubits, Qubit):
             qubits = [qubits]
 
-        if cls._num_qubits is not None and len(qubits) != cls.num_qubits:
+        # note that 'cls._num_qubits' might not yet be set for controlled operations
+        num_qubits = getattr(cls, "num_qubits", None)
+        if num_qubits is not None and len(qubits) != num_qubits:
             raise ValueError(
-                f"Operation '{cls.name}' requires " f"{cls.num_qubits} qubits, got {len(qubits)}."
+                f"Operation '{cls.name}' requires {num_qubits} qubits, got {len(qubits)}."
             )
 
         # cast to tuple for convention
-- 
2.43.0


From cc0521bda09d745fb17da26959ee7324389535f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 37/55] fix: variables kept their values after a failed
 application of a parametric circuit

---
 dwave/gate/circuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 1588a24..a955cb0 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -738,12 +738,12 @@ class ParametricCircuit(Circuit):
             CircuitError: If called outside of an active context.
         """
         if CircuitContext.active_context:
+            # delay reset variables function call to on context exit
+            CircuitContext.on_exit_functions.append(self.reset_variables)
+
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-        # delay reset variables function call to on context exit
-        CircuitContext.on_exit_functions.append(self.reset_variables)
-
         return super().__call__(qubits=qubits, bits=bits)
 
     def unlock(self) -> None:
-- 
2.43.0


From 09819e7209ab47a5570be5bbd87c7018a30f14d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 38/55] fix: build_controlled_unitary silently accepted
 negative and repeated qubit indices

---
 dwave/gate/tools/unitary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 354a69a..3bd97dc 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -139,6 +139,12 @@ def build_controlled_unitary(
     if not set(control).isdisjoint(target):
         raise ValueError("Control qubits and target qubit cannot be the same.")
 
+    if len(set(control)) != len(control):
+        raise ValueError("Control qubits must be different from each other.")
+
+    if min(itertools.chain.from_iterable((control, target))) < 0:
+        raise ValueError("Qubit indices cannot be negative.")
+
     max_ = max(itertools.chain.from_iterable((control, target)))
     if isinstance(num_qubits, int) and num_qubits <= max_:
         raise ValueError(
-- 
2.43.0


From 2c2bcefc52099e66639565644ab4d7bde3dd4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 39/55] fix: applying a circuit ignored a single bit whose
 value is 0

---
 dwave/gate/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index a955cb0..0a066ca 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -115,11 +115,12 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
+        # the truth value of a bit is its value, so a single bit must be wrapped first
+        if isinstance(bits, Bit):
+            bits = [bits]
+
         bit_map = {}
         if bits:
-            if isinstance(bits, Bit):
-                bits = [bits]
-
             if len(bits) != len(self.bits):
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
 
-- 
2.43.0


From a2d5611bd55792dd2d287044a495710c0754b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 40/55] fix: num_qubits of measurements and barriers was not
 updated when their qubits were set

---
 dwave/gate/operations/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index a68a6c2..1ddf0ec 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -309,6 +309,9 @@ class Operation(metaclass=ABCLockedAttr):
                 f"Changing qubits on which '{self}' is applied from {self._qubits} to {qubits}"
             )
         self._qubits = self._check_qubits(qubits)
+        # operations on any number of qubits act on the ones they have
+        if type(self)._num_qubits is None:
+            self._num_qubits = len(self._qubits)
 
     @property
     def is_blocked(self) -> bool:
-- 
2.43.0


From 5f6d0c38be7f27b23140ad2ebd1db60a4cecf3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 41/55] fix: controlled operations derived from others
 inherited their number of qubits

---
 dwave/gate/operations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 1ddf0ec..5ad7090 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -530,7 +530,7 @@ class ControlledOperation(Operation):
     @mixedproperty
     def num_qubits(cls, self) -> int:
         """Number of qubits that the operation supports."""
-        if not cls._num_qubits and cls.num_control and cls.num_target:
+        if cls.num_control and cls.num_target:
             cls._num_qubits = cls.num_control + cls.num_target
 
         if self is not None:
-- 
2.43.0


From a2b0b6bbd2e2d9ca49dfcbda9cd470e3efc822ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 42/55] fix: controlled operations accepted a wrong split into
 control and target qubits

---
 dwave/gate/operations/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 5ad7090..6f7e89d 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -498,7 +498,12 @@ class ControlledOperation(Operation):
 
             # all qubits are stored in the 'qubits' attribute
             if self.control and self.target:
-                qubits = tuple(chain.from_iterable((self.control, self.target)))
+                qubits = self._check_qubits(tuple(chain.from_iterable((self.control, self.target))))
+                if self._num_control and len(self.control) != self._num_control:
+                    raise ValueError(
+                        f"Operation '{type(self).name}' requires {self._num_control} control qubits, "
+                        f"got {len(self.control)}."
+                    )
             else:
                 qubits = None
 
-- 
2.43.0


From eb03572e24158785dacaad4e95f55f4319603d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 43/55] fix: resetting a QIR module that is not compiled failed
 or crashed the interpreter

---
 dwave/gate/qir/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 5f2e0a8..868f65c 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -304,7 +304,9 @@ class BaseModule:
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
         self._remove_external_instructions()
-        self._return.erase()
+        if self._return is not None:
+            self._return.erase()
+            self._return = None
 
         if rm_instructions:
             for key in self._instructions:
-- 
2.43.0


From 87b2977fec6d6d60d6286825ee76ab9575ef88a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 44/55] fix: a QIR module could not be compiled anymore after a
 failed compilation

---
 dwave/gate/qir/compiler.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 868f65c..1ff1449 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -71,6 +71,7 @@ class BaseModule:
         **kwargs,
     ) -> None:
         self._is_compiled = False
+        self._is_built = False
 
         self._module_kwargs = kwargs
         self._module_kwargs.setdefault("qir_major_version", 1)
@@ -139,13 +140,14 @@ class BaseModule:
             set_void_return: Whether to set a ``Void`` return in the final block.
             strict: Whether the compiler should raise an error if verification fails.
         """
-        if self._is_compiled:
-            if not force:
-                raise CompileError(
-                    "Module already compiled. Set 'force=True' to force recompilation."
-                )
+        if self._is_compiled and not force:
+            raise CompileError("Module already compiled. Set 'force=True' to force recompilation.")
+
+        # also discard what a failed compilation left in the module
+        if self._is_built:
             self.reset(rm_instructions=False)
 
+        self._is_built = True
         self._compile()
 
         self._return = self.builder.ret(self._return_cmd)
@@ -326,7 +328,7 @@ class BaseModule:
                     function_type, Linkage.EXTERNAL, exfunc.name, self._module
                 )
 
-        self._is_compiled = False
+        self._is_compiled = self._is_built = False
         self._qir = self._bitcode = None
 
     def _remove_external_instructions(self) -> None:
-- 
2.43.0


From f5014505cc9332a1d60f71b4909a59e9b6e647ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 45/55] fix: the bitcode of a compiled QIR module changed when
 declaring external functions

---
 dwave/gate/qir/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 1ff1449..604af1a 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -252,7 +252,7 @@ class BaseModule:
         if not self._is_compiled:
             self.compile()
 
-        return self._module.bitcode
+        return self._bitcode
 
     def add_instruction(self, block: str, instruction: Instruction) -> None:
         """Add an instruction (operation) to the module.
-- 
2.43.0


From 907b7d0d68282eed776b5113cb76953c38c74d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 46/55] fix: recompiling a QIR module dropped calls of external
 functions

---
 dwave/gate/qir/compiler.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 604af1a..0837c81 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -305,7 +305,6 @@ class BaseModule:
             rm_instructions: Whether to also reset all instructions.
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
-        self._remove_external_instructions()
         if self._return is not None:
             self._return.erase()
             self._return = None
@@ -328,17 +327,15 @@ class BaseModule:
                     function_type, Linkage.EXTERNAL, exfunc.name, self._module
                 )
 
+            # external instructions must call the new functions
+            for instructions in self._instructions.values():
+                for i, instr in enumerate(instructions):
+                    if instr.type is InstrType.EXTERNAL:
+                        instructions[i] = self.get_external_instruction(instr.name, instr.args)
+
         self._is_compiled = self._is_built = False
         self._qir = self._bitcode = None
 
-    def _remove_external_instructions(self) -> None:
-        """Removes all external functions from the instructions."""
-        for block, instructions in self._instructions.items():
-            instr_len = len(instructions)
-            for i, instr in enumerate(reversed(instructions)):
-                if instr.type is InstrType.EXTERNAL:
-                    del self._instructions[block][instr_len - i - 1]
-
 
 def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
     """Create a QIR module out of a circuit.
-- 
2.43.0


From 85f7a42de4b66bc184956d5fc6af61aef6b83c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 47/55] fix: loading QIR into a circuit with several registers
 mixed up its qubits

---
 dwave/gate/qir/loader.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 11caed5..8197942 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -119,8 +119,7 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         # delay adding until all measurements are collected
                         continue
 
-                    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-                        circuit.add_qubit()
+                    _add_missing(circuit, qubits, [])
 
                     circuit.unlock()
                     with circuit.context as reg:
@@ -134,6 +133,20 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
     return circuit
 
 
+def _add_missing(circuit: Circuit, qubits: Sequence[int], bits: Sequence[int]) -> None:
+    """Add qubits and bits to circuit, after the ones it has, until all positions exist.
+
+    Args:
+        circuit: The circuit to add the qubits and bits to.
+        qubits: The positions of the qubits that are used.
+        bits: The positions of the bits that are used.
+    """
+    for _ in range(circuit.num_qubits, max(qubits or [-1]) + 1):
+        circuit.add_qubit(qreg_label=next(reversed(circuit.qregisters), None))
+    for _ in range(circuit.num_bits, max(bits or [-1]) + 1):
+        circuit.add_bit(creg_label=next(reversed(circuit.cregisters), None))
+
+
 def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[int]) -> None:
     """Add measurements to circuit.
 
@@ -142,10 +155,7 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
-    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-        circuit.add_qubit()
-    for _ in range(circuit.num_bits, max(bits or [0]) + 1):
-        circuit.add_bit()
+    _add_missing(circuit, qubits, bits)
 
     circuit.unlock()
     with circuit.context as reg:
-- 
2.43.0


From e29a85dc79894709e31574f8ba39547b9247c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 48/55] fix: OpenQASM statements of custom operations dropped
 their parameters

---
 dwave/gate/operations/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 6f7e89d..95021a0 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -118,6 +118,10 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             else:
                 new_name = self.__class__.__name__.lower()
 
+            parameters = getattr(self, "parameters", None)
+            if parameters:
+                new_name += f"({', '.join(str(p) for p in parameters)})"
+
             if self.qubits:
                 qubits = ", ".join(self._map_qubits(mapping))
                 return f"{new_name} {qubits}"
-- 
2.43.0


From 919038b49e00b4686e57192a6e5222f08697008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:04 +0000
Subject: [PATCH 49/55] fix: extending a circuit by its own operations
 terminates

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 0a066ca..f24b1b6 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -210,7 +210,7 @@ class Circuit:
         Args:
             operations: Operations to append to the circuit.
         """
-        for op in operations:
+        for op in list(operations):
             self.append(op)
 
     def remove(self, op: Operation) -> None:
-- 
2.43.0


From acffd5abbc2f1db56b60e035ba8349cc6ef76276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 50/55] fix: conditions of an operation followed the caller's
 list

---
 dwave/gate/operations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 95021a0..0e2378d 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -354,7 +354,7 @@ class Operation(metaclass=ABCLockedAttr):
         if isinstance(bits, Bit):
             bits = (bits,)
 
-        self._cond = bits
+        self._cond = copy.copy(bits)
         return self
 
 
-- 
2.43.0


From d34e4b579291d7e292a8bd360219bca61a7611f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 51/55] fix: modifying a returned decomposition changed the
 operation's class

---
 dwave/gate/operations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 0e2378d..2596e02 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -287,7 +287,7 @@ class Operation(metaclass=ABCLockedAttr):
             raise NotImplementedError(
                 "Decomposition not implemented for the " f"'{cls.name}' operation."
             )
-        return decomposition
+        return list(decomposition)
 
     @mixedproperty
     def num_qubits(cls, self) -> int:
-- 
2.43.0


From 923f1609049f20523581a703e25443c62e240081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 52/55] fix: the state set on a circuit followed the caller's
 array

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index f24b1b6..fdfdc06 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -279,12 +279,12 @@ class Circuit:
         self._assert_state(state)
 
         if state.ndim == 1:
-            self._state = state
+            self._state = state.copy()
             self._density_matrix = None
 
         else:  # if state.ndim == 2:
             self._state = None
-            self._density_matrix = state
+            self._density_matrix = state.copy()
 
     @staticmethod
     def _norm(state: NDArray) -> complex:
-- 
2.43.0


From c1bc5ffef2a5a294cec0dbf366088d6cc5714d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 53/55] fix: a QIR instruction followed the caller's list of
 arguments

---
 dwave/gate/qir/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/qir/instructions.py b/dwave/gate/qir/instructions.py
index 143edf9..cad5a1b 100644
--- a/dwave/gate/qir/instructions.py
+++ b/dwave/gate/qir/instructions.py
@@ -123,7 +123,7 @@ class Instruction:
         self._name = name
 
         self._assert_args(args)
-        self._args = args
+        self._args = list(args)
 
         if self.type is InstrType.EXTERNAL and not external:
             raise ValueError("Instruction with type 'external' missing external function.")
-- 
2.43.0


From 5d29d95ed42045ff5f81a441cf4b530a759c556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 54/55] fix: matrix and simulation of parametric controlled
 gates failed within an active context

---
 dwave/gate/operations/base.py      | 15 ++++++++++++++-
 dwave/gate/simulator/simulator.pyx |  5 +----
 dwave/gate/tools/unitary.py        |  5 +----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 2596e02..95cd383 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -593,6 +593,19 @@ class ControlledOperation(Operation):
         self._control = self._qubits[: self.num_control]
         self._target = self._qubits[self.num_control :]
 
+    def _target_unitary(self) -> NDArray:
+        """The matrix of the target operation, also within an active context."""
+        if not hasattr(self, "parameters"):
+            return self.target_operation.matrix
+
+        if CircuitContext.active_context is None:
+            return self.target_operation(self.parameters).matrix
+
+        # the target operation is not part of the circuit
+        with CircuitContext.freeze:
+            qubits = [Qubit(str(i)) for i in range(self.target_operation.num_qubits)]
+            return self.target_operation(self.parameters, qubits).matrix
+
     @property
     def control(self) -> Optional[tuple[Qubit]]:
         """Control qubit(s)."""
@@ -669,7 +682,7 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     @mixedproperty(self_required=True)
     def matrix(cls, self) -> NDArray:
         """The matrix representation of the parametric controlled operation."""
-        self._target_matrix = cls.target_operation(self.parameters).matrix
+        self._target_matrix = self._target_unitary()
 
         # signature of super required for correct self to be passed along (do not remove)
         # if removed, 'matrix' attribute will crash due to '_target_matrix' not found
diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index c9f216b..7c0c04e 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -94,10 +94,7 @@ def apply_instruction(
 
     elif isinstance(op, ops.ControlledOperation):
         # should be single qubit gate with controls
-        if isinstance(op, ops.ParametricOperation):
-            gate = op.target_operation(op.parameters).matrix
-        else:
-            gate = op.target_operation.matrix
+        gate = op._target_unitary()
         assert gate.shape == (2, 2), (op, gate)
         if conjugate_gate:
             gate = np.ascontiguousarray(gate.conjugate())
diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 3bd97dc..434fda3 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -100,11 +100,8 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     """
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
-    target_operation = op.target_operation
-    if hasattr(op, "parameters"):
-        target_operation = target_operation(op.parameters)
     controlled_unitary = build_controlled_unitary(
-        control_idx, target_idx, target_operation.matrix, len(qubits)
+        control_idx, target_idx, op._target_unitary(), len(qubits)
     )
     return controlled_unitary @ state
 
-- 
2.43.0


From 78fa90ef90cf5f8fbba2247ffb24a8b604b9a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:04 +0000
Subject: [PATCH 55/55] fix: loading QIR moved measurements behind the gates
 that follow them

---
 dwave/gate/qir/loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 8197942..572e76a 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -119,6 +119,11 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         # delay adding until all measurements are collected
                         continue
 
+                    # measurements are carried out before the operations that follow them
+                    if meas_qubits:
+                        _add_measurements(circuit, meas_qubits, meas_bits)
+                        meas_qubits, meas_bits = [], []
+
                     _add_missing(circuit, qubits, [])
 
                     circuit.unlock()
-- 
2.43.0

