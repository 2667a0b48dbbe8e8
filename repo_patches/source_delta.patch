From 66bb38cef561df43b686a2674d99fb75b0564743 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 01/69] fix: keep the control state when a command is copied,
 inverted, merged or compared

Command.__deepcopy__, get_inverse and get_merged dropped the control state (all
controls became positive) and __eq__ ignored it, so that e.g. the optimizer
cancelled gates with different control states. The constructor sorted the
control qubits but not their states.
---
 projectq/ops/_command.py                       | 16 ++++++++++++++--
 projectq/setups/decompositions/controlstate.py |  5 +++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 481efcc..f7b3d26 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -116,6 +116,9 @@ class Command:  # pylint: disable=too-many-instance-attributes
         self.control_qubits = controls  # property
         self.engine = engine  # property
         self.control_state = control_state  # property
+        # The control qubits have been sorted (see control_qubits): sort their states accordingly
+        order = sorted(range(len(controls)), key=lambda i: controls[i].id)
+        self._control_state = ''.join(self._control_state[i] for i in order)
 
     @property
     def qubits(self):
@@ -135,6 +138,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def get_inverse(self):
@@ -152,6 +156,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def is_identity(self):
@@ -173,13 +178,19 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Raises:
             NotMergeable: if the gates don't supply a get_merged()-function or can't be merged for other reasons.
         """
-        if self.tags == other.tags and self.all_qubits == other.all_qubits and self.engine == other.engine:
+        if (
+            self.tags == other.tags
+            and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
+            and self.engine == other.engine
+        ):
             return Command(
                 self.engine,
                 self.gate.get_merged(other.gate),
                 self.qubits,
                 self.control_qubits,
                 deepcopy(self.tags),
+                self.control_state,
             )
         raise projectq.ops.NotMergeable("Commands not mergeable.")
 
@@ -325,7 +336,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             other (Command): Command object to compare this to
 
         Returns: True if Command objects are equal (same gate, applied to same
-        qubits; ordered modulo interchangeability; and same tags)
+        qubits; ordered modulo interchangeability; same control states and same tags)
         """
         if (
             isinstance(other, self.__class__)
@@ -333,6 +344,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             and self.tags == other.tags
             and self.engine == other.engine
             and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
         ):
             return True
         return False
diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index b8d180e..d5b0c66 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -33,9 +33,10 @@ def _decompose_controlstate(cmd):
                 X | ctrl
 
     # Resend the command with the `control_state` cleared
-    cmd.ctrl_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
-    cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
+    new_cmd = deepcopy(cmd)  # NB: deepcopy required here to workaround infinite recursion detection
+    new_cmd.control_state = '1' * len(cmd.control_state)
+    orig_engine.receive([new_cmd])
     Uncompute(orig_engine)
 
 
-- 
2.43.0


From 38ede1ad5f04d940f2389cebda4d41aecfeb2929 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 02/69] fix: do not append inverse rules to the decomposition
 rule set

AutoReplacer extended the rule set's own list of rules in place each time it
looked for the rules of an inverse gate: the list doubled with every command.
---
 projectq/cengines/_replacer/_replacer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index 69cedf7..2b72d40 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -176,7 +176,10 @@ class AutoReplacer(BasicEngine):
                     if level < len(inverse_mro):
                         inv_class_name = inverse_mro[level].__name__
                         try:
-                            potential_decomps += [d.get_inverse_decomposition() for d in rules[inv_class_name]]
+                            # NB: do not modify the list of the rule set in-place
+                            potential_decomps = potential_decomps + [
+                                d.get_inverse_decomposition() for d in rules[inv_class_name]
+                            ]
                         except KeyError:
                             pass
                         # throw out the ones which don't recognize the command
-- 
2.43.0


From e0b7060226dd0a78ddf17b8879c9dffbd9b69a89 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 03/69] fix: drop identity gates from the lists of all their
 qubits

LocalOptimizer removed a multi-qubit identity gate only from the list of its
last qubit, which left the lists of the other qubits inconsistent.
---
 projectq/cengines/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 1cce731..2f84b2d 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -138,7 +138,7 @@ class LocalOptimizer(BasicEngine):
                     new_list = (
                         self._l[qubit_id][0 : gid[j]] + self._l[qubit_id][gid[j] + 1 :]  # noqa: E203  # noqa: E203
                     )
-                self._l[qubitids[j]] = new_list  # pylint: disable=undefined-loop-variable
+                    self._l[qubit_id] = new_list
                 i = 0
                 limit -= 1
                 continue
-- 
2.43.0


From 48fa267b916d2bd7b87a0753639e23b50f0d4e13 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 04/69] fix: honour the control state in the classical
 simulator

Gates controlled on 0 were accepted but executed as if controlled on 1.
---
 projectq/backends/_sim/_classical_simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index f873d10..8a4f006 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -227,7 +227,9 @@ class ClassicalSimulator(BasicEngine):
             return
 
         controls_mask = self._mask(cmd.control_qubits)
-        meets_controls = self._state & controls_mask == controls_mask
+        # bits that have to be 1 (the other control bits have to be 0)
+        controls_value = self._mask(qb for qb, state in zip(cmd.control_qubits, cmd.control_state) if state == '1')
+        meets_controls = self._state & controls_mask == controls_value
 
         if isinstance(cmd.gate, XGate):
             if not (len(cmd.qubits) == 1 and len(cmd.qubits[0]) == 1):
-- 
2.43.0


From f490c3bbfbff503461767f32526c3ca9c5887768 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 05/69] fix: honour negative controls in the simulator

---
 projectq/backends/_sim/_simulator.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index f3365fb..70160eb 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -21,6 +21,7 @@ implementation is used as an alternative.
 
 import math
 import random
+from copy import deepcopy
 
 from projectq.cengines import BasicEngine
 from projectq.meta import LogicalQubitIDTag, get_control_count, has_negative_control
@@ -31,6 +32,7 @@ from projectq.ops import (
     FlushGate,
     Measure,
     TimeEvolution,
+    X,
 )
 from projectq.types import WeakQubitRef
 
@@ -335,6 +337,20 @@ class Simulator(BasicEngine):
             Exception: If a non-single-qubit gate needs to be processed (which should never happen due to
                 is_available).
         """
+        # The simulation kernels only know positive controls: flip the negative control qubits before and after the gate
+        negative_ctrls = [qb.id for qb, state in zip(cmd.control_qubits, cmd.control_state) if state == '0']
+        if negative_ctrls and cmd.gate != Measure:
+            cmd = deepcopy(cmd)
+            cmd.control_state = '1' * len(cmd.control_qubits)
+            for stage in (0, 1):
+                for ctrl_id in negative_ctrls:
+                    self._simulator.apply_controlled_gate(X.matrix.tolist(), [ctrl_id], [])
+                if stage == 0:
+                    self._handle(cmd)
+            if not self._gate_fusion:
+                self._simulator.run()
+            return
+
         if cmd.gate == Measure:
             if get_control_count(cmd) != 0:
                 raise ValueError('Cannot have control qubits with a measurement gate!')
-- 
2.43.0


From 190c99dc33c57f846c3bfb2dbd8bda9c18b566fe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 06/69] fix: honour negative controls in the unitary simulator

---
 projectq/backends/_unitary.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a8941b1..54f49c8 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -28,15 +28,15 @@ from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate, Meas
 from projectq.types import WeakQubitRef
 
 
-def _qidmask(target_ids, control_ids, n_qubits):
+def _qidmask(target_ids, control_ids, n_qubits, control_state=None):
     """
     Calculate index masks.
 
     Args:
         target_ids (list): list of target qubit indices
         control_ids (list): list of control qubit indices
-        control_state (list): list of states for the control qubits (0 or 1)
         n_qubits (int): number of qubits
+        control_state (list): list of states for the control qubits (0 or 1), all 1 if not given
     """
     mask_list = []
     perms = np.array([x[::-1] for x in itertools.product("01", repeat=n_qubits)]).astype(int)
@@ -44,7 +44,7 @@ def _qidmask(target_ids, control_ids, n_qubits):
     irel_ids = np.delete(all_ids, control_ids + target_ids)
 
     if len(control_ids) > 0:
-        cmask = np.where(np.all(perms[:, control_ids] == [1] * len(control_ids), axis=1))
+        cmask = np.where(np.all(perms[:, control_ids] == (control_state or [1] * len(control_ids)), axis=1))
     else:
         cmask = np.array(range(perms.shape[0]))
 
@@ -239,6 +239,7 @@ class UnitarySimulator(BasicEngine):
                 [self._qubit_map[qb.id] for qr in cmd.qubits for qb in qr],
                 [self._qubit_map[qb.id] for qb in cmd.control_qubits],
                 self._num_qubits,
+                [int(state) for state in cmd.control_state],
             )
             for mask in mask_list:
                 cache = np.identity(2**self._num_qubits, dtype=complex)
-- 
2.43.0


From e44dbe3a3d49fb20927013a6406a565d502e29f6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 07/69] fix: respect the order of the target qubits in the
 unitary simulator

---
 projectq/backends/_unitary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 54f49c8..429c8cd 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -58,7 +58,10 @@ def _qidmask(target_ids, control_ids, n_qubits, control_state=None):
     else:
         irel_mask = np.array(range(perms.shape[0]))
         mask_list.append(np.intersect1d(irel_mask, cmask))
-    return mask_list
+
+    # Order the indices as the rows of the gate matrix, ie. according to the value of the target qubits
+    weights = 2 ** np.arange(len(target_ids))
+    return [mask[np.argsort(perms[np.ix_(mask, target_ids)] @ weights)] for mask in mask_list]
 
 
 class UnitarySimulator(BasicEngine):
-- 
2.43.0


From 3833dfcd1ef1e3dfcb1cd45e7ec7cbc1411118d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 08/69] fix: keep the unitary simulator's state and size
 correct across flushes, allocations and deallocations

---
 projectq/backends/_unitary.py | 41 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 429c8cd..4661662 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -99,7 +99,7 @@ class UnitarySimulator(BasicEngine):
         self._num_qubits = 0
         self._is_valid = True
         self._is_flushed = False
-        self._state = [1]
+        self._state = np.array([1], dtype=complex)
         self._history = []
 
     @property
@@ -174,9 +174,20 @@ class UnitarySimulator(BasicEngine):
 
     def _flush(self):
         """Flush the simulator state."""
-        if not self._is_flushed:
-            self._is_flushed = True
-            self._state = self._unitary @ self._state
+        self._is_flushed = True
+
+    def _reset_unitary(self):
+        """Add the unitary to the history and start a new one, if a measurement or deallocation completed it."""
+        if not self._is_valid:
+            self._flush()
+
+            warnings.warn(
+                "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
+                "previous unitary can be accessed in history"
+            )
+            self._history.append(self._unitary)
+            self._unitary = np.identity(2**self._num_qubits, dtype=complex)
+            self._is_valid = True
 
     def _handle(self, cmd):
         """
@@ -189,13 +200,17 @@ class UnitarySimulator(BasicEngine):
             RuntimeError: If a measurement is performed before flush gate.
         """
         if isinstance(cmd.gate, AllocateQubitGate):
+            self._reset_unitary()
             self._qubit_map[cmd.qubits[0][0].id] = self._num_qubits
             self._num_qubits += 1
             self._unitary = np.kron(np.identity(2), self._unitary)
-            self._state.extend([0] * len(self._state))
+            self._state = np.concatenate((self._state, np.zeros(len(self._state))))
 
         elif isinstance(cmd.gate, DeallocateQubitGate):
-            pos = self._qubit_map[cmd.qubits[0][0].id]
+            qubit_id = cmd.qubits[0][0].id
+            value = self.measure_qubits([qubit_id])[0]
+            pos = self._qubit_map.pop(qubit_id)
+            self._state = self._state.reshape(-1, 2, 2**pos)[:, int(value), :].reshape(-1)
             self._qubit_map = {key: value - 1 if value > pos else value for key, value in self._qubit_map.items()}
             self._num_qubits -= 1
             self._is_valid = False
@@ -225,18 +240,7 @@ class UnitarySimulator(BasicEngine):
         elif isinstance(cmd.gate, FlushGate):
             self._flush()
         else:
-            if not self._is_valid:
-                self._flush()
-
-                warnings.warn(
-                    "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
-                    "previous unitary can be accessed in history"
-                )
-                self._history.append(self._unitary)
-                self._unitary = np.identity(2**self._num_qubits, dtype=complex)
-                self._state = np.array([1] + ([0] * (2**self._num_qubits - 1)), dtype=complex)
-                self._is_valid = True
-
+            self._reset_unitary()
             self._is_flushed = False
             mask_list = _qidmask(
                 [self._qubit_map[qb.id] for qr in cmd.qubits for qb in qr],
@@ -248,6 +252,7 @@ class UnitarySimulator(BasicEngine):
                 cache = np.identity(2**self._num_qubits, dtype=complex)
                 cache[np.ix_(mask, mask)] = cmd.gate.matrix
                 self._unitary = cache @ self._unitary
+                self._state = cache @ self._state
 
     def measure_qubits(self, ids):
         """
-- 
2.43.0


From f625ad40b4528f868cacd850c0a3694b1d4f3151 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 09/69] fix: restore the compiler pipeline when a Dagger, Loop
 or CustomUncompute section fails

---
 projectq/meta/_compute.py | 36 +++++++++++++++++++-----------------
 projectq/meta/_dagger.py  | 21 +++++++++++----------
 projectq/meta/_loop.py    | 10 ++++++----
 3 files changed, 36 insertions(+), 31 deletions(-)

diff --git a/projectq/meta/_compute.py b/projectq/meta/_compute.py
index 84cde8a..eb4e291 100755
--- a/projectq/meta/_compute.py
+++ b/projectq/meta/_compute.py
@@ -370,23 +370,25 @@ class CustomUncompute:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
-        # If an error happens in this context, qubits might not have been
-        # deallocated because that code section was not yet executed,
-        # so don't check and raise an additional error.
-        if exc_type is not None:
-            return
-        # Check that all qubits allocated within Compute or within
-        # CustomUncompute have been deallocated.
-        all_allocated_qubits = self._allocated_qubit_ids.union(self._uncompute_eng._allocated_qubit_ids)
-        all_deallocated_qubits = self._deallocated_qubit_ids.union(self._uncompute_eng._deallocated_qubit_ids)
-        if len(all_allocated_qubits.difference(all_deallocated_qubits)) != 0:
-            raise QubitManagementError(
-                "\nError. Not all qubits have been deallocated which have \n"
-                + "been allocated in the with Compute(eng) or with "
-                + "CustomUncompute(eng) context."
-            )
-        # remove uncompute engine
-        drop_engine_after(self.engine)
+        try:
+            # If an error happens in this context, qubits might not have been
+            # deallocated because that code section was not yet executed,
+            # so don't check and raise an additional error.
+            if exc_type is not None:
+                return
+            # Check that all qubits allocated within Compute or within
+            # CustomUncompute have been deallocated.
+            all_allocated_qubits = self._allocated_qubit_ids.union(self._uncompute_eng._allocated_qubit_ids)
+            all_deallocated_qubits = self._deallocated_qubit_ids.union(self._uncompute_eng._deallocated_qubit_ids)
+            if len(all_allocated_qubits.difference(all_deallocated_qubits)) != 0:
+                raise QubitManagementError(
+                    "\nError. Not all qubits have been deallocated which have \n"
+                    + "been allocated in the with Compute(eng) or with "
+                    + "CustomUncompute(eng) context."
+                )
+        finally:
+            # remove uncompute engine
+            drop_engine_after(self.engine)
 
 
 def Uncompute(engine):  # pylint: disable=invalid-name
diff --git a/projectq/meta/_dagger.py b/projectq/meta/_dagger.py
index f2a7dc2..f4bd136 100755
--- a/projectq/meta/_dagger.py
+++ b/projectq/meta/_dagger.py
@@ -129,13 +129,14 @@ class Dagger:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
-        # If an error happens in this context, qubits might not have been
-        # deallocated because that code section was not yet executed,
-        # so don't check and raise an additional error.
-        if exc_type is not None:
-            return
-        # run dagger engine
-        self._dagger_eng.run()
-        self._dagger_eng = None
-        # remove dagger handler from engine list (i.e. skip it)
-        drop_engine_after(self.engine)
+        try:
+            # If an error happens in this context, qubits might not have been
+            # deallocated because that code section was not yet executed,
+            # so don't check and raise an additional error.
+            if exc_type is None:
+                # run dagger engine
+                self._dagger_eng.run()
+        finally:
+            self._dagger_eng = None
+            # remove dagger handler from engine list (i.e. skip it)
+            drop_engine_after(self.engine)
diff --git a/projectq/meta/_loop.py b/projectq/meta/_loop.py
index 5fd9415..37d8ab9 100755
--- a/projectq/meta/_loop.py
+++ b/projectq/meta/_loop.py
@@ -249,7 +249,9 @@ class Loop:
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
         if self.num != 1:
-            # remove loop handler from engine list (i.e. skip it)
-            self._loop_eng.run()
-            self._loop_eng = None
-            drop_engine_after(self.engine)
+            try:
+                self._loop_eng.run()
+            finally:
+                # remove loop handler from engine list (i.e. skip it)
+                self._loop_eng = None
+                drop_engine_after(self.engine)
-- 
2.43.0


From 5f9cd405b7cabad7941b1c4ce706556e131d6ca0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 10/69] fix: reject negative integers as control state

---
 projectq/meta/_control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/meta/_control.py b/projectq/meta/_control.py
index 1768927..0d51737 100755
--- a/projectq/meta/_control.py
+++ b/projectq/meta/_control.py
@@ -60,6 +60,8 @@ def canonical_ctrl_state(ctrl_state, num_qubits):
         return '0' * num_qubits
 
     if isinstance(ctrl_state, int):
+        if ctrl_state < 0:
+            raise ValueError(f'Control state specified as {ctrl_state} is negative')
         # If the user inputs an integer, convert it to binary bit string
         converted_str = f'{ctrl_state:b}'.zfill(num_qubits)[::-1]
         if len(converted_str) != num_qubits:
-- 
2.43.0


From a06be0d8c35552feaf50404616247fd0844a0a0a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 11/69] fix: refuse wavefunctions and bit strings of the wrong
 length in the C++ simulator

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 1a84723..e50d31f 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -32,6 +32,7 @@
 #include <tuple>
 #include <random>
 #include <functional>
+#include <stdexcept>
 
 
 class Simulator{
@@ -352,6 +353,8 @@ public:
     calc_type get_probability(std::vector<bool> const& bit_string,
                               std::vector<unsigned> const& ids){
         run();
+        if (bit_string.size() < ids.size())
+            throw(std::length_error("get_probability(): too few bits for the given ids"));
         if (!check_ids(ids))
             throw(std::runtime_error("get_probability(): Unknown qubit id. Please make sure you have called eng.flush()."));
         std::size_t mask = 0, bit_str = 0;
@@ -370,6 +373,8 @@ public:
     complex_type const& get_amplitude(std::vector<bool> const& bit_string,
                                       std::vector<unsigned> const& ids){
         run();
+        if (bit_string.size() < ids.size())
+            throw(std::length_error("get_amplitude(): too few bits for the given ids"));
         std::size_t chk = 0;
         std::size_t index = 0;
         for (unsigned i = 0; i < ids.size(); ++i){
@@ -440,7 +445,8 @@ public:
     void set_wavefunction(StateVector const& wavefunction, std::vector<unsigned> const& ordering){
         run();
         // make sure there are 2^n amplitudes for n qubits
-        assert(wavefunction.size() == (1UL << ordering.size()));
+        if (wavefunction.size() != (1UL << ordering.size()))
+            throw(std::length_error("set_wavefunction(): The wavefunction must contain 2^n elements!"));
         // check that all qubits have been allocated previously
         if (map_.size() != ordering.size() || !check_ids(ordering))
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
-- 
2.43.0


From 1e455417adf51256ef6118c2bf2cd5bddaf3e914 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 12/69] fix: merge qubit operators in the order of application

---
 projectq/ops/_qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 80c901d..cd4e1e9 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -352,7 +352,7 @@ class QubitOperator(BasicGate):
             NotMergeable: merging is not possible
         """
         if isinstance(other, self.__class__) and len(other.terms) == 1 and len(self.terms) == 1:
-            return self * other
+            return other * self
         raise NotMergeable()
 
     def __imul__(self, multiplier):  # pylint: disable=too-many-locals,too-many-branches
-- 
2.43.0


From 0c4bb972aa96f275a3c10d2fa2409be979a22cb1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 13/69] fix: find the rotation angles of one-qubit gates close
 to diagonal or antidiagonal ones

---
 projectq/setups/decompositions/arb1qubit2rzandry.py      | 2 +-
 projectq/setups/decompositions/carb1qubit2cnotrzandry.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/arb1qubit2rzandry.py b/projectq/setups/decompositions/arb1qubit2rzandry.py
index fc9d1a4..409ac3f 100644
--- a/projectq/setups/decompositions/arb1qubit2rzandry.py
+++ b/projectq/setups/decompositions/arb1qubit2rzandry.py
@@ -183,7 +183,7 @@ def _find_parameters(matrix):  # pylint: disable=too-many-branches,too-many-stat
             (two_b / 4.0 + math.pi) % (2 * math.pi),
             (two_b / 4.0 + 3.0 / 2.0 * math.pi) % (2 * math.pi),
         ]
-        tmp = math.acos(abs(matrix[1][1]))
+        tmp = math.atan2(abs(matrix[0][1]), abs(matrix[1][1]))
         possible_c_half = [
             tmp % (2 * math.pi),
             (tmp + math.pi) % (2 * math.pi),
diff --git a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
index 549db3a..90a3e81 100644
--- a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
+++ b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
@@ -137,7 +137,7 @@ def _recognize_v(matrix):  # pylint: disable=too-many-branches
         (two_b / 2.0) % (2 * math.pi),
         (two_b / 2.0 + math.pi) % (2 * math.pi),
     ]
-    tmp = math.acos(abs(matrix[1][0]))
+    tmp = math.atan2(abs(matrix[0][0]), abs(matrix[1][0]))
     possible_c_half = [
         tmp % (2 * math.pi),
         (tmp + math.pi) % (2 * math.pi),
-- 
2.43.0


From cac96b6951da2dbd297ffecc1323c9744ab56981 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 14/69] fix: compare qubit operators by their terms

---
 projectq/ops/_qubit_operator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index cd4e1e9..9b935a5 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -581,6 +581,15 @@ class QubitOperator(BasicGate):
         """Repr method."""
         return str(self)
 
+    def __eq__(self, other):
+        """Return True if other is a QubitOperator with the same terms and coefficients."""
+        return isinstance(other, QubitOperator) and self.terms == other.terms
+
     def __hash__(self):
         """Compute the hash of the object."""
-        return hash(str(self))
+        # Equal operators may list their terms in another order and mix real and complex coefficients
+        canonical = QubitOperator()
+        for term in sorted(self.terms):
+            coeff = self.terms[term] + 0j
+            canonical.terms[term] = coeff if coeff.imag else coeff.real
+        return hash(str(canonical))
-- 
2.43.0


From 9300120968e66ac6f8e9a900eb64bf997b61c85f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 15/69] fix: compare phase estimation and amplitude
 amplification gates by their parameters

---
 projectq/ops/_qaagate.py | 10 ++++++++++
 projectq/ops/_qpegate.py |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/projectq/ops/_qaagate.py b/projectq/ops/_qaagate.py
index c5561ea..31cf3df 100755
--- a/projectq/ops/_qaagate.py
+++ b/projectq/ops/_qaagate.py
@@ -80,3 +80,13 @@ class QAA(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QAA(Algorithm = {str(self.algorithm.__name__)}, Oracle = {str(self.oracle.__name__)})'
+
+    def __eq__(self, other):
+        """Return True if other amplifies the same algorithm with the same oracle."""
+        return (
+            isinstance(other, self.__class__) and self.algorithm == other.algorithm and self.oracle == other.oracle
+        )
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
diff --git a/projectq/ops/_qpegate.py b/projectq/ops/_qpegate.py
index 3eab6e8..4c50559 100755
--- a/projectq/ops/_qpegate.py
+++ b/projectq/ops/_qpegate.py
@@ -32,3 +32,11 @@ class QPE(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QPE({str(self.unitary)})'
+
+    def __eq__(self, other):
+        """Return True if other is the phase estimation of the same unitary."""
+        return isinstance(other, self.__class__) and self.unitary == other.unitary
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
-- 
2.43.0


From 884086782e67fb97ecd77668f8bd1f131fdc4325 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 16/69] fix: compare math gates by the function they compute

---
 projectq/ops/_basics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/projectq/ops/_basics.py b/projectq/ops/_basics.py
index 8546965..d3915bd 100755
--- a/projectq/ops/_basics.py
+++ b/projectq/ops/_basics.py
@@ -607,6 +607,14 @@ class BasicMathGate(BasicGate):
         """Return a string representation of the object."""
         return "MATH"
 
+    def __eq__(self, other):
+        """Return True if same class and same mathematical function."""
+        return isinstance(other, self.__class__) and self._math_function == other._math_function
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def get_math_function(self, qubits):  # pylint: disable=unused-argument
         """
         Get the math function associated with a BasicMathGate.
-- 
2.43.0


From f7a5a86dd827a36382ed45d01b7696c42dade975 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 17/69] fix: do not merge time evolutions with terms of
 coefficient zero

---
 projectq/ops/_time_evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index c28de10..881b6cc 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -113,6 +113,8 @@ class TimeEvolution(BasicGate):
         if isinstance(other, TimeEvolution) and set(self.hamiltonian.terms) == set(other.hamiltonian.terms):
             factor = None
             for term in self.hamiltonian.terms:
+                if self.hamiltonian.terms[term] == 0 or other.hamiltonian.terms[term] == 0:
+                    raise NotMergeable("Cannot merge these two gates.")
                 if factor is None:
                     factor = self.hamiltonian.terms[term] / float(other.hamiltonian.terms[term])
                 else:
-- 
2.43.0


From 3542144f5e03e17063176dd0b97071bc67e845c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 18/69] fix: make time evolution, controlled and tensored gates
 hashable

---
 projectq/ops/_metagates.py      | 10 +++++++++-
 projectq/ops/_time_evolution.py |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_metagates.py b/projectq/ops/_metagates.py
index 0c1f89f..99eb0ea 100644
--- a/projectq/ops/_metagates.py
+++ b/projectq/ops/_metagates.py
@@ -92,7 +92,7 @@ class DaggeredGate(BasicGate):
 
     def __hash__(self):
         """Compute the hash of the object."""
-        return hash(str(self))
+        return hash((DaggeredGate, self._gate))
 
 
 def get_inverse(gate):
@@ -222,6 +222,10 @@ class ControlledGate(BasicGate):
         """Compare two ControlledGate objects (return True if equal)."""
         return isinstance(other, self.__class__) and self._gate == other._gate and self._n == other._n
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash((self._gate, self._n))
+
 
 def C(gate, n_qubits=1):
     """
@@ -269,6 +273,10 @@ class Tensor(BasicGate):
         """Equal operator."""
         return isinstance(other, Tensor) and self._gate == other._gate
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash((Tensor, self._gate))
+
     def __or__(self, qubits):
         """Operator| overload which enables the syntax Gate | qubits."""
         if isinstance(qubits, tuple):
diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index 881b6cc..c37c48e 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -201,6 +201,10 @@ class TimeEvolution(BasicGate):
         """Not implemented as this object is a floating point type."""
         return NotImplemented
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return f"exp({-1j * self.time} * ({self.hamiltonian}))"
-- 
2.43.0


From 859221de382eb62468c87ebd53c993e3c3aa4f3b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 19/69] fix: allow adding a qubit operator to itself in place
 and subtracting it

---
 projectq/ops/_qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 9b935a5..73078e0 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -501,7 +501,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, QubitOperator):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 if term in self.terms:
                     if abs(addend.terms[term] + self.terms[term]) > 0.0:
                         self.terms[term] += addend.terms[term]
@@ -530,7 +530,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot subtract invalid type from QubitOperator.
         """
         if isinstance(subtrahend, QubitOperator):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 if term in self.terms:
                     if abs(self.terms[term] - subtrahend.terms[term]) > 0.0:
                         self.terms[term] -= subtrahend.terms[term]
-- 
2.43.0


From 3cce09a77c76a38ff325fd3fdd53afdbf608713d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 20/69] fix: reject Pauli strings of the wrong length as action
 of a qubit operator

---
 projectq/ops/_qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 73078e0..4d0de04 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -145,7 +145,7 @@ class QubitOperator(BasicGate):
                     if not isinstance(local_operator, tuple) or len(local_operator) != 2:
                         raise ValueError("term specified incorrectly.")
                     qubit_num, action = local_operator
-                    if not isinstance(action, str) or action not in 'XYZ':
+                    if not isinstance(action, str) or action not in ('X', 'Y', 'Z'):
                         raise ValueError("Invalid action provided: must be string 'X', 'Y', or 'Z'.")
                     if not (isinstance(qubit_num, int) and qubit_num >= 0):
                         raise QubitOperatorError(
@@ -164,7 +164,7 @@ class QubitOperator(BasicGate):
             # Test that list_ops has correct format of tuples
             for local_operator in list_ops:
                 qubit_num, action = local_operator
-                if not isinstance(action, str) or action not in 'XYZ':
+                if not isinstance(action, str) or action not in ('X', 'Y', 'Z'):
                     raise ValueError("Invalid action provided: must be string 'X', 'Y', or 'Z'.")
                 if not (isinstance(qubit_num, int) and qubit_num >= 0):
                     raise QubitOperatorError("Invalid qubit number provided to QubitTerm: must be a non-negative int.")
-- 
2.43.0


From c7cdb0967db2f22fc30a88bf8355a585274bd26f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 21/69] fix: apply the controls of a phase estimation gate

---
 .../setups/decompositions/phaseestimation.py  | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 0913064..21b0300 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -98,28 +98,29 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
     qpe_ancillas = cmd.qubits[0]
     system_qubits = cmd.qubits[1]
 
-    # Hadamard on the ancillas
-    Tensor(H) | qpe_ancillas
-
-    # The Unitary Operator
-    unitary = cmd.gate.unitary
-
-    # Control U on the system_qubits
-    if callable(unitary):
-        # If U is a function
-        for i, ancilla in enumerate(qpe_ancillas):
-            with Control(eng, ancilla):
-                unitary(system_qubits, time=2**i)
-    else:
-        for i, ancilla in enumerate(qpe_ancillas):
-            ipower = int(2**i)
-            with Loop(eng, ipower):
+    with Control(eng, cmd.control_qubits):
+        # Hadamard on the ancillas
+        Tensor(H) | qpe_ancillas
+
+        # The Unitary Operator
+        unitary = cmd.gate.unitary
+
+        # Control U on the system_qubits
+        if callable(unitary):
+            # If U is a function
+            for i, ancilla in enumerate(qpe_ancillas):
                 with Control(eng, ancilla):
-                    unitary | system_qubits
+                    unitary(system_qubits, time=2**i)
+        else:
+            for i, ancilla in enumerate(qpe_ancillas):
+                ipower = int(2**i)
+                with Loop(eng, ipower):
+                    with Control(eng, ancilla):
+                        unitary | system_qubits
 
-    # Inverse QFT on the ancillas
-    get_inverse(QFT) | qpe_ancillas
+        # Inverse QFT on the ancillas
+        get_inverse(QFT) | qpe_ancillas
 
 
-#: Decomposition rules
+    #: Decomposition rules
 all_defined_decomposition_rules = [DecompositionRule(QPE, _decompose_QPE)]
-- 
2.43.0


From 07e54d4404a98c1223b91a115516caff4488add1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 22/69] fix: apply the controls of an amplitude amplification
 gate

---
 .../decompositions/amplitudeamplification.py  | 33 ++++++++++---------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/projectq/setups/decompositions/amplitudeamplification.py b/projectq/setups/decompositions/amplitudeamplification.py
index 5a85283..a1fd8a6 100644
--- a/projectq/setups/decompositions/amplitudeamplification.py
+++ b/projectq/setups/decompositions/amplitudeamplification.py
@@ -88,23 +88,24 @@ def _decompose_QAA(cmd):  # pylint: disable=invalid-name
     oracle = cmd.gate.oracle
     alg = cmd.gate.algorithm
 
-    # Apply the oracle to invert the amplitude of the good states, S_Chi
-    oracle(eng, system_qubits, qaa_ancilla)
-
-    # Apply the inversion of the Algorithm,
-    # the inversion of the amplitude of |0> and the Algorithm
-
-    with Compute(eng):
-        with Dagger(eng):
+    with Control(eng, cmd.control_qubits):
+        # Apply the oracle to invert the amplitude of the good states, S_Chi
+        oracle(eng, system_qubits, qaa_ancilla)
+
+        # Apply the inversion of the Algorithm,
+        # the inversion of the amplitude of |0> and the Algorithm
+
+        with Compute(eng):
+            with Dagger(eng):
+                alg(eng, system_qubits)
+            All(X) | system_qubits
+        with Control(eng, system_qubits[0:-1]):
+            Z | system_qubits[-1]
+        with CustomUncompute(eng):
+            All(X) | system_qubits
             alg(eng, system_qubits)
-        All(X) | system_qubits
-    with Control(eng, system_qubits[0:-1]):
-        Z | system_qubits[-1]
-    with CustomUncompute(eng):
-        All(X) | system_qubits
-        alg(eng, system_qubits)
-    Ph(math.pi) | system_qubits[0]
+        Ph(math.pi) | system_qubits[0]
 
 
-#: Decomposition rules
+    #: Decomposition rules
 all_defined_decomposition_rules = [DecompositionRule(QAA, _decompose_QAA)]
-- 
2.43.0


From e2815f30beace0d3da43f6a1015a27ad3e2714a9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 23/69] fix: apply a time evolution without terms as the
 identity

---
 projectq/ops/_time_evolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index c37c48e..5a49c16 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -168,6 +168,9 @@ class TimeEvolution(BasicGate):
         qubits = self.make_tuple_of_qureg(qubits)
         if len(qubits) != 1:
             raise TypeError("Only one qubit or qureg allowed.")
+        # A hamiltonian without any term does nothing
+        if not self.hamiltonian.terms:
+            return
         # Check that if hamiltonian has only an identity term,
         # apply a global phase:
         if len(self.hamiltonian.terms) == 1 and () in self.hamiltonian.terms:
-- 
2.43.0


From 98224683eebd730a189020d2bd3b25c7ad945f46 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 24/69] fix: do not print from the time evolution decomposition

---
 projectq/setups/decompositions/time_evolution.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/projectq/setups/decompositions/time_evolution.py b/projectq/setups/decompositions/time_evolution.py
index 9e02939..2b78e92 100644
--- a/projectq/setups/decompositions/time_evolution.py
+++ b/projectq/setups/decompositions/time_evolution.py
@@ -111,7 +111,6 @@ def _decompose_time_evolution_individual_terms(cmd):  # pylint: disable=too-many
                         H | qureg[index]
                     elif action == 'Y':
                         Rx(math.pi / 2.0) | qureg[index]
-                print(check_indices, set(range(len(qureg))))
                 # Check that qureg had exactly as many qubits as indices:
                 if check_indices != set(range(len(qureg))):
                     raise ValueError('Indices mismatch between hamiltonian terms and qubits')
-- 
2.43.0


From 2c5f89677c11df2fec74f181f9f805b270590ac5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 25/69] fix: keep the amplitudes when the Python simulator
 emulates a function that is not injective

---
 projectq/backends/_sim/_pysim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index f6fb58f..87d0b2b 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -217,9 +217,9 @@ class Simulator:
                     for qb_i, qb_loc in enumerate(qr_loc):
                         if not ((new_i >> qb_loc) & 1) == ((res[qr_i] >> qb_i) & 1):
                             new_i ^= 1 << qb_loc
-                newstate[new_i] = state
+                newstate[new_i] += state
             else:
-                newstate[i] = state
+                newstate[i] += state
 
         self._state = newstate
 
-- 
2.43.0


From 747dc2682e04a0bcc009097968d5b15b93eb7672 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 26/69] fix: flip the carry of the inverse quantum adder only
 if the subtraction borrows

---
 projectq/libs/math/_gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index ad466d2..981344a 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -285,8 +285,8 @@ class _InverseAddQuantumGate(BasicMathGate):
 
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
-            if len(a) == 3:
-                # Flip the last bit of the carry register
+            if len(a) == 3 and a[1] < a[0]:
+                # Flip the last bit of the carry register if the subtraction borrows
                 a[2] ^= 1
 
             a[1] -= a[0]
-- 
2.43.0


From 1ccfffc049063e65a244c37fa458306c1a0ca40d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 27/69] fix: the quantum comparator is its own inverse

---
 projectq/libs/math/_gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 981344a..03b5899 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -393,8 +393,8 @@ class ComparatorQuantumGate(BasicMathGate):
         return hash(str(self))
 
     def get_inverse(self):
-        """Return the inverse of this gate."""
-        return AddQuantum
+        """Return the inverse of this gate (flipping the compare qubit twice leaves it unchanged)."""
+        return ComparatorQuantum
 
 
 ComparatorQuantum = ComparatorQuantumGate()
-- 
2.43.0


From 6ec3d245955c0f45cef34e0a432f7f992e95ddeb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 28/69] fix: give the inverse addition, division and
 multiplication gates an inverse

---
 projectq/libs/math/_gates.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 03b5899..653049e 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -283,6 +283,10 @@ class _InverseAddQuantumGate(BasicMathGate):
         """Return a string representation of the object."""
         return "_InverseAddQuantum"
 
+    def get_inverse(self):
+        """Return the inverse gate (AddQuantum)."""
+        return AddQuantum
+
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
             if len(a) == 3 and a[1] < a[0]:
@@ -484,6 +488,10 @@ class _InverseDivideQuantumGate(BasicMathGate):
         """Return a string representation of the object."""
         return "_InverseDivideQuantum"
 
+    def get_inverse(self):
+        """Return the inverse gate (DivideQuantum)."""
+        return DivideQuantum
+
 
 class MultiplyQuantumGate(BasicMathGate):
     """
@@ -552,3 +560,7 @@ class _InverseMultiplyQuantumGate(BasicMathGate):
     def __str__(self):
         """Return a string representation of the object."""
         return "_InverseMultiplyQuantum"
+
+    def get_inverse(self):
+        """Return the inverse gate (MultiplyQuantum)."""
+        return MultiplyQuantum
-- 
2.43.0


From 45bd416a7af4630778512fc8102f04ea7444e601 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 29/69] fix: give the multiplication by a constant modulo N an
 inverse

---
 projectq/libs/math/_gates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 653049e..363b3e9 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -204,6 +204,12 @@ class MultiplyByConstantModN(BasicMathGate):
         """Return a string representation of the object."""
         return f"MultiplyByConstantModN({self.a}, {self.N})"
 
+    def get_inverse(self):
+        """Return the inverse gate (multiplication by the inverse of the same number modulo the same number N)."""
+        from ._constantmath import inv_mod_N  # pylint: disable=import-outside-toplevel,cyclic-import
+
+        return MultiplyByConstantModN(inv_mod_N(self.a, self.N), self.N)
+
     def __eq__(self, other):
         """Equal operator."""
         return isinstance(other, MultiplyByConstantModN) and self.a == other.a and self.N == other.N
-- 
2.43.0


From a57fa4faa45ecfd727a3e53c5d2a990fe97c5dc7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 30/69] fix: add modulo N without an overflow if N needs all
 qubits of the register

---
 projectq/libs/math/_constantmath.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 14c87e7..9a7221b 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -56,6 +56,13 @@ def add_constant_modN(eng, constant, N, quint):  # pylint: disable=invalid-name
     if constant < 0 or constant > N:
         raise ValueError('Pre-condition failed: 0 <= constant < N')
 
+    # The highest qubit is used as overflow and sign bit: It must not be needed to store numbers lower than N.
+    if N > 1 << (len(quint) - 1):
+        overflow = eng.allocate_qubit()
+        add_constant_modN(eng, constant, N, quint + overflow)
+        del overflow
+        return
+
     AddConstant(constant) | quint
 
     with Compute(eng):
-- 
2.43.0


From fe1f45211cea5a91a84a581d92e6eee97efae734 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 31/69] fix: add and compare quantum registers of one qubit
 correctly

---
 projectq/libs/math/_quantummath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 59aa7cf..fea2b68 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -56,7 +56,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    if carry:
+    if carry and n_qubits > 2:
         CNOT | (quint_a[n_qubits - 2], carry)
 
     for j in range(n_qubits - 3, 0, -1):
@@ -206,7 +206,8 @@ def comparator(eng, quint_a, quint_b, comp):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    CNOT | (quint_a[n_qubits - 2], comp)
+    if n_qubits > 2:
+        CNOT | (quint_a[n_qubits - 2], comp)
 
     for j in range(n_qubits - 3, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
@@ -425,8 +426,9 @@ def quantum_conditional_add_carry(eng, quint_a, quint_b, ctrl, z):  # pylint: di
     for i in range(1, n_a):
         CNOT | (quint_a[i], quint_b[i])
 
-    with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
-        X | z[0]
+    if n_a > 1:
+        with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
+            X | z[0]
 
     for j in range(n_a - 2, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
-- 
2.43.0


From c8b7ca32357ab08279d48768109d3da06384ae45 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 32/69] fix: allow controlled quantum addition with a carry of
 one qubit

---
 projectq/libs/math/_default_rules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/libs/math/_default_rules.py b/projectq/libs/math/_default_rules.py
index 7243fea..440925a 100755
--- a/projectq/libs/math/_default_rules.py
+++ b/projectq/libs/math/_default_rules.py
@@ -87,7 +87,10 @@ def _replace_addquantum(cmd):
     else:
         quint_a = cmd.qubits[0]
         quint_b = cmd.qubits[1]
-        if len(cmd.qubits) == 3:
+        if len(cmd.qubits) == 3 and len(cmd.qubits[2]) == 1:
+            with Control(eng, cmd.control_qubits):
+                add_quantum(eng, quint_a, quint_b, cmd.qubits[2])
+        elif len(cmd.qubits) == 3:
             carry = cmd.qubits[2]
             with Control(eng, cmd.control_qubits):
                 quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
-- 
2.43.0


From d575aa426de59954ef98f53b4fe24f56dc06407f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 33/69] fix: undo the first half of the quantum comparator in
 reverse order

---
 projectq/libs/math/_quantummath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index fea2b68..e194488 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -219,11 +219,11 @@ def comparator(eng, quint_a, quint_b, comp):
     with Control(eng, [quint_a[n_qubits - 2], quint_b[n_qubits - 2]]):
         X | comp
 
-    for k in range(0, n_qubits - 2):
+    for k in range(n_qubits - 3, -1, -1):
         with Control(eng, [quint_a[k], quint_b[k]]):
             X | (quint_a[k + 1])
 
-    for j in range(n_qubits - 3, 0, -1):
+    for j in range(1, n_qubits - 2):
         CNOT | (quint_a[j], quint_a[j + 1])
 
     for i in range(1, n_qubits - 1):
-- 
2.43.0


From a5d49f59c3bc917660a421c0a9a80820e43ff520 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 34/69] fix: multiply all bits of the factors in the quantum
 multiplier

---
 projectq/libs/math/_quantummath.py | 41 ++++++++----------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index e194488..bd7c79a 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -14,7 +14,7 @@
 
 """Definition of some mathematical quantum operations."""
 
-from projectq.meta import Control
+from projectq.meta import Control, Dagger
 from projectq.ops import CNOT, All, X
 
 from ._gates import AddQuantum, SubtractQuantum
@@ -498,21 +498,15 @@ def quantum_multiplication(eng, quint_a, quint_b, product):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
 
-    with Control(eng, quint_b[1]):
-        AddQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
+    for j in range(1, n_a):
+        quantum_conditional_add_carry(
+            eng,
+            quint_a,
+            product[j : (n_a + j)],  # noqa: E203
+            [quint_b[j]],
+            [product[n_a + j], product[n_a + j + 1]],
         )
 
-    for j in range(2, n_a):
-        with Control(eng, quint_b[j]):
-            AddQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
-                [product[n_a + j], product[n_a + j + 1]],
-            )
-
 
 def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     """
@@ -538,20 +532,5 @@ def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     if len(product) != ((2 * n_a) + 1):
         raise ValueError('product size must be 2*n + 1')
 
-    for j in range(2, n_a):
-        with Control(eng, quint_b[j]):
-            SubtractQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
-                [product[n_a + j], product[n_a + j + 1]],
-            )
-    for i in range(0, n_a):
-        with Control(eng, [quint_a[i], quint_b[0]]):
-            X | product[i]
-
-    with Control(eng, quint_b[1]):
-        SubtractQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
+    with Dagger(eng):
+        quantum_multiplication(eng, quint_a, quint_b, product)
-- 
2.43.0


From 748d378849c253488c844df2e4f864f74a80a0d7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 35/69] fix: divide by divisors that need all their qubits and
 allow controlled division

---
 projectq/libs/math/_quantummath.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index bd7c79a..9198939 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -17,7 +17,7 @@
 from projectq.meta import Control, Dagger
 from projectq.ops import CNOT, All, X
 
-from ._gates import AddQuantum, SubtractQuantum
+from ._gates import AddQuantum
 
 
 def add_quantum(eng, quint_a, quint_b, carry=None):
@@ -335,10 +335,11 @@ def quantum_division(eng, dividend, remainder, divisor):
         for i in range(0, n_dividend - 1):
             combined_reg.append(remainder[i])
 
-        SubtractQuantum | (divisor[0:n_dividend], combined_reg)
-        CNOT | (combined_reg[n_dividend - 1], remainder[n_dividend - 1])
+        # The highest qubit of the shifted remainder ends up as the sign of the difference
+        with Dagger(eng):
+            add_quantum(eng, divisor, combined_reg, [remainder[n_dividend - 1]])
         with Control(eng, remainder[n_dividend - 1]):
-            AddQuantum | (divisor[0:n_dividend], combined_reg)
+            add_quantum(eng, divisor, combined_reg)
         X | remainder[n_dividend - 1]
 
         remainder.insert(0, dividend[n_dividend - 1])
@@ -366,22 +367,8 @@ def inverse_quantum_division(eng, remainder, quotient, divisor):
     if not len(quotient) == len(remainder) == len(divisor):
         raise ValueError('Size mismatch in quotient, divisor and remainder!')
 
-    j = 0
-    n_quotient = len(quotient)
-
-    while j != n_quotient:
-        X | quotient[0]
-        with Control(eng, quotient[0]):
-            SubtractQuantum | (divisor, remainder)
-        CNOT | (remainder[-1], quotient[0])
-
-        AddQuantum | (divisor, remainder)
-
-        remainder.insert(n_quotient, quotient[0])
-        quotient.insert(n_quotient, remainder[0])
-        del remainder[0]
-        del quotient[0]
-        j += 1
+    with Dagger(eng):
+        quantum_division(eng, list(remainder), list(quotient), divisor)
 
 
 def quantum_conditional_add_carry(eng, quint_a, quint_b, ctrl, z):  # pylint: disable=invalid-name
-- 
2.43.0


From 011a49e4e24af896f5ed0d398b40323bf73d05a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 36/69] fix: calculate modular inverses of large integers
 exactly

---
 projectq/libs/math/_constantmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 9a7221b..6cc5da7 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -127,7 +127,7 @@ def inv_mod_N(a, N):  # pylint: disable=invalid-name
     r = N
     old_r = a
     while r != 0:
-        q = int(old_r / r)
+        q = old_r // r
         tmp = r
         r = old_r - q * r
         old_r = tmp
-- 
2.43.0


From 06e47d65fc9a5336765cc7f35e3635638322aa7d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 37/69] fix: do not control the conditional adders twice by the
 same qubit

---
 projectq/libs/math/_default_rules.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/projectq/libs/math/_default_rules.py b/projectq/libs/math/_default_rules.py
index 440925a..b57d893 100755
--- a/projectq/libs/math/_default_rules.py
+++ b/projectq/libs/math/_default_rules.py
@@ -92,11 +92,9 @@ def _replace_addquantum(cmd):
                 add_quantum(eng, quint_a, quint_b, cmd.qubits[2])
         elif len(cmd.qubits) == 3:
             carry = cmd.qubits[2]
-            with Control(eng, cmd.control_qubits):
-                quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
+            quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
         else:
-            with Control(eng, cmd.control_qubits):
-                quantum_conditional_add(eng, quint_a, quint_b, cmd.control_qubits)
+            quantum_conditional_add(eng, quint_a, quint_b, cmd.control_qubits)
 
 
 def _replace_inverse_add_quantum(cmd):
-- 
2.43.0


From 1e9ca98ec94ee3a524bb33db38f187b8949e002a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:34:07 +0000
Subject: [PATCH 38/69] fix: do not overflow when the C++ simulator multiplies
 modulo N

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index e50d31f..21513b1 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -287,7 +287,7 @@ public:
     template<class QuReg>
     inline void emulate_math_multiplyByConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x * a) % N;}, quregs, ctrl, true);
+      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = int((static_cast<long long>(x) * a) % N);}, quregs, ctrl, true);
     }
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
-- 
2.43.0


From c412606a8325da644a4f6e11002933b26901bffd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 39/69] fix: a main engine refused for too many engines no
 longer fails in its destructor

---
 projectq/cengines/_main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/cengines/_main.py b/projectq/cengines/_main.py
index 87ec1b3..98e2149 100755
--- a/projectq/cengines/_main.py
+++ b/projectq/cengines/_main.py
@@ -188,6 +188,7 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
         self.n_engines = len(engine_list)
         if self.n_engines > self.n_engines_max:
+            self.next_engine = _ErrorEngine()
             raise ValueError('Too many compiler engines added to the MainEngine!')
 
         self._qubit_idx = int(0)
-- 
2.43.0


From 5180d41f60f7dbbc39941ab70aa871eb0db753f9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:44:02 +0000
Subject: [PATCH 40/69] fix: linear and grid mappers reject gates on more than
 two qubits at once

---
 projectq/cengines/_linearmapper.py | 2 ++
 projectq/cengines/_twodmapper.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/projectq/cengines/_linearmapper.py b/projectq/cengines/_linearmapper.py
index 0e39bbf..b575601 100644
--- a/projectq/cengines/_linearmapper.py
+++ b/projectq/cengines/_linearmapper.py
@@ -604,6 +604,8 @@ class LinearMapper(BasicMapperEngine):  # pylint: disable=too-many-instance-attr
                 while self._stored_commands:
                     self._run()
                 self.send([cmd])
+            elif not self.is_available(cmd):
+                raise Exception(f"Invalid command (number of qubits): {str(cmd)}")
             else:
                 self._stored_commands.append(cmd)
             # Storage is full: Create new map and send some gates away:
diff --git a/projectq/cengines/_twodmapper.py b/projectq/cengines/_twodmapper.py
index 7a54a02..a0da8d2 100644
--- a/projectq/cengines/_twodmapper.py
+++ b/projectq/cengines/_twodmapper.py
@@ -592,6 +592,8 @@ class GridMapper(BasicMapperEngine):  # pylint: disable=too-many-instance-attrib
                 while self._stored_commands:
                     self._run()
                 self.send([cmd])
+            elif not self.is_available(cmd):
+                raise Exception(f"Invalid command (number of qubits): {str(cmd)}")
             else:
                 self._stored_commands.append(cmd)
             # Storage is full: Create new map and send some gates away:
-- 
2.43.0


From 26dedc5e87ee292c631be931aeb53214cd5332cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 41/69] fix: the IBM five-qubit mapper gives new qubits a
 location that is free

---
 projectq/cengines/_ibm5qubitmapper.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/projectq/cengines/_ibm5qubitmapper.py b/projectq/cengines/_ibm5qubitmapper.py
index bb7549e..269cd08 100755
--- a/projectq/cengines/_ibm5qubitmapper.py
+++ b/projectq/cengines/_ibm5qubitmapper.py
@@ -159,10 +159,8 @@ class IBM5QubitMapper(BasicMapperEngine):
             self._interactions[(ctrl, target)] += 1
         elif cmd.gate == Allocate:
             if target not in self.current_mapping:
-                new_max = 0
-                if len(self.current_mapping) > 0:
-                    new_max = max(self.current_mapping.values()) + 1
-                self._current_mapping[target] = new_max
+                used = set(self.current_mapping.values())
+                self._current_mapping[target] = next(loc for loc in itertools.count() if loc not in used)
         self._cmds.append(cmd)
 
     def receive(self, command_list):
-- 
2.43.0


From 70dd23e6e711b69d421ba18bb06b6956690d63ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 42/69] fix: the manual mapper does not ask for the location of
 the flush id

---
 projectq/cengines/_manualmapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_manualmapper.py b/projectq/cengines/_manualmapper.py
index 4e77010..a3cae87 100755
--- a/projectq/cengines/_manualmapper.py
+++ b/projectq/cengines/_manualmapper.py
@@ -51,6 +51,7 @@ class ManualMapper(BasicMapperEngine):
             ids = [qb.id for qr in cmd.qubits for qb in qr]
             ids += [qb.id for qb in cmd.control_qubits]
             for qubit_id in ids:
-                if qubit_id not in self.current_mapping:
+                # a flush comes with the id -1
+                if qubit_id != -1 and qubit_id not in self.current_mapping:
                     self._current_mapping[qubit_id] = self.map(qubit_id)
             self._send_cmd_with_mapped_ids(cmd)
-- 
2.43.0


From 511ea70e1b286de5ff3f14d30dbbaea426541457 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 43/69] fix: keep the control state of a CNOT that is flipped

---
 projectq/cengines/_swapandcnotflipper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_swapandcnotflipper.py b/projectq/cengines/_swapandcnotflipper.py
index 997274a..9edccb3 100755
--- a/projectq/cengines/_swapandcnotflipper.py
+++ b/projectq/cengines/_swapandcnotflipper.py
@@ -18,7 +18,7 @@ It also translates Swap gates to CNOTs if necessary.
 """
 from copy import deepcopy
 
-from projectq.meta import get_control_count
+from projectq.meta import get_control_count, has_negative_control
 from projectq.ops import CNOT, NOT, All, H, Swap
 
 from ._basics import BasicEngine, ForwarderEngine
@@ -110,6 +110,8 @@ class SwapAndCNOTFlipper(BasicEngine):
             All(H) | (control + target)
             CNOT | (target, control)
             All(H) | (control + target)
+            if has_negative_control(cmd):
+                NOT | target
         else:
             CNOT | (control, target)
 
-- 
2.43.0


From c508aa0de4320e805d8b24292b1eee4904386e11 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:05:29 +0000
Subject: [PATCH 44/69] fix: linear and grid setups do not take a controlled
 gate for a one-qubit gate of its class

---
 projectq/setups/_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 20c531a..15fb9b6 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -104,12 +104,13 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
     rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
-    allowed_gate_classes = []
+    allowed_gate_classes1 = []  # 1-qubit gates
+    allowed_gate_classes2 = []  # 2-qubit gates
     allowed_gate_instances = []
     if one_qubit_gates != "any":
         for gate in one_qubit_gates:
             if inspect.isclass(gate):
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes1.append(gate)
             else:
                 allowed_gate_instances.append((gate, 0))
     if two_qubit_gates != "any":
@@ -119,13 +120,14 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                 #  separate treatment
                 if isinstance(gate, ControlledGate):  # pragma: no cover
                     raise RuntimeError('Support for controlled gate not implemented!')
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes2.append(gate)
             else:
                 if isinstance(gate, ControlledGate):
                     allowed_gate_instances.append((gate._gate, gate._n))  # pylint: disable=protected-access
                 else:
                     allowed_gate_instances.append((gate, 0))
-    allowed_gate_classes = tuple(allowed_gate_classes)
+    allowed_gate_classes1 = tuple(allowed_gate_classes1)
+    allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances = tuple(allowed_gate_instances)
 
     def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
@@ -139,7 +141,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
             return True
-        if isinstance(cmd.gate, allowed_gate_classes):
+        if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
+            return True
+        if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
             return True
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
             return True
-- 
2.43.0


From 12457721b91d7013c110511ea69e1b0761c562cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 45/69] fix: gate-set setups decompose gates with negative
 controls

---
 projectq/setups/_utils.py            | 4 ++++
 projectq/setups/restrictedgateset.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 15fb9b6..0428914 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -25,6 +25,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import (
     CNOT,
     QFT,
@@ -137,6 +138,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            # The gate sets only contain gates controlled on |1>
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 202bb99..0973fd2 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -31,6 +31,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
 from ._utils import high_level_gates, one_and_two_qubit_gates
@@ -154,6 +155,9 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            # The gate sets only contain gates controlled on |1>
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
-- 
2.43.0


From 02ed271d6e52a0dbabd269c1b03868a1ec00729d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 46/69] fix: AWS Braket jobs polled without any retry time out
 with the Arn of the job

get_result() with num_retries=0 raised UnboundLocalError, and the Arn of the
submitted job was lost.
---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index 7924a40..76395f4 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -262,6 +262,7 @@ class AWSBraket:
         try:
             signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
 
+            status = 'UNKNOWN'
             for _ in range(num_retries):
                 quantum_task = client_braket.get_quantum_task(quantumTaskArn=execution_id)
                 status = quantum_task['status']
-- 
2.43.0


From 28b8459f2d3c1af5ccdddd953e0431eed6a81797 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 47/69] fix: IBM, AQT and AWS Braket jobs ask for all the
 qubits they use

Qubits allocated before an earlier flush were forgotten: IBM and AQT failed
with a ValueError, AWS asked for too few qubits, as it did whenever the
locations of the qubits were not contiguous.
---
 projectq/backends/_aqt/_aqt.py             | 1 -
 projectq/backends/_awsbraket/_awsbraket.py | 3 +--
 projectq/backends/_ibm/_ibm.py             | 1 -
 3 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9d5e5e2..887ee85 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -126,7 +126,6 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._probabilities = {}
             self._clear = False
             self._circuit = []
-            self._allocated_qubits = set()
 
         gate = cmd.gate
         if gate == Allocate:
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 78fe5bd..4d96961 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -265,7 +265,6 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             self._probabilities = {}
             self._clear = False
             self._circuit = ""
-            self._allocated_qubits = set()
 
         if gate == Allocate:
             self._allocated_qubits.add(cmd.qubits[0][0].id)
@@ -403,7 +402,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             if not self._circuit:
                 return
 
-            n_qubit = len(self._allocated_qubits)
+            n_qubit = max(self._allocated_qubits) + 1
             info = {}
             info['circuit'] = self._circuithead + self._circuit.rstrip(', ') + self._circuittail
             info['nq'] = n_qubit
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2a11aa5..30b6ad6 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -146,7 +146,6 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._clear = False
             self.qasm = ""
             self._json = []
-            self._allocated_qubits = set()
 
         gate = cmd.gate
         if gate == Allocate:
-- 
2.43.0


From 32443d8e48285dce58f5cddefa4538d04b3518d8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 48/69] fix: IonQ and Azure jobs ask for enough qubits under
 any mapping

The number of mapped qubits is too small as soon as a location is not smaller
than it; the gates of the job then act on qubits that the job does not have.
---
 projectq/backends/_azure/_azure_quantum.py | 4 ++--
 projectq/backends/_ionq/_ionq.py           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 682caa6..e0eb3c0 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -282,7 +282,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
     @property
     def _input_data(self):
         qubit_mapping = self.main_engine.mapper.current_mapping
-        qubits = len(qubit_mapping.keys())
+        qubits = max(qubit_mapping.values(), default=-1) + 1
 
         if self._provider_id == IONQ_PROVIDER_ID:
             return {"qubits": qubits, "circuit": self._circuit}
@@ -304,7 +304,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
     @property
     def _metadata(self):
         qubit_mapping = self.main_engine.mapper.current_mapping
-        num_qubits = len(qubit_mapping.keys())
+        num_qubits = max(qubit_mapping.values(), default=-1) + 1
         meas_map = [qubit_mapping[qubit_id] for qubit_id in self._measured_ids]
 
         return {"num_qubits": num_qubits, "meas_map": meas_map}
diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 4c59369..5a72393 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -291,7 +291,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             measured_ids = self._measured_ids[:]
             info = {
                 'circuit': self._circuit,
-                'nq': len(qubit_mapping.keys()),
+                'nq': max(qubit_mapping.values(), default=-1) + 1,
                 'shots': self._num_runs,
                 'meas_mapped': [qubit_mapping[qubit_id] for qubit_id in measured_ids],
                 'meas_qubit_ids': measured_ids,
-- 
2.43.0


From 2b5a4b6a105fc2c93c989b6bc807b6384a64e614 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 49/69] fix: IonQBackend detects gates on measured qubits under
 any mapping

It compared the locations of the gate with the ids of the measured qubits, so
that allowed programs were refused and mid-circuit measurements went unnoticed
when ids and locations differ.
---
 projectq/backends/_ionq/_ionq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 5a72393..be81cf0 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -109,6 +109,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._interval = interval
         self._circuit = []
         self._measured_ids = []
+        self._measured_locations = set()
         self._probabilities = {}
         self._retrieve_execution = retrieve_execution
         self._clear = True
@@ -169,6 +170,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_locations = set()
             self._probabilities = {}
             self._clear = False
 
@@ -187,6 +189,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     break
             # Add the qubit id
             self._measured_ids.append(logical_id)
+            self._measured_locations.add(cmd.qubits[0][0].id)
             return
 
         # Process the Command's gate type:
@@ -204,12 +207,12 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         #   in this operation.
         targets = [qb.id for qureg in cmd.qubits for qb in qureg]
         controls = [qb.id for qb in cmd.control_qubits]
-        if len(self._measured_ids) > 0:
+        if len(self._measured_locations) > 0:
             # Check any qubits we are trying to operate on.
             gate_qubits = set(targets) | set(controls)
 
             # If any of them have already been measured...
-            already_measured = gate_qubits & set(self._measured_ids)
+            already_measured = gate_qubits & self._measured_locations
 
             # Boom!
             if len(already_measured) > 0:
-- 
2.43.0


From c5e54df001f6f1ab4f35b06de592784f738896fc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 50/69] fix: IonQBackend draws its outcome according to the
 probabilities

The last outcome always replaced the one that had been drawn.
---
 projectq/backends/_ionq/_ionq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index be81cf0..8c34d2c 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -326,7 +326,6 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         random_outcome = random.random()
         p_sum = 0.0
         measured = ""
-        star = ""
         num_measured = len(measured_ids)
         probable_outcomes = res['output_probs']
         states = probable_outcomes.keys()
@@ -335,7 +334,8 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             state = _rearrange_result(int(state_int), num_measured)
             probability = probable_outcomes[state_int]
             p_sum += probability
-            if p_sum >= random_outcome and measured == "" or (idx == len(states) - 1):
+            star = ""
+            if measured == "" and (p_sum >= random_outcome or idx == len(states) - 1):
                 measured = state
                 star = "*"
             self._probabilities[state] = probability
-- 
2.43.0


From 490a35fdbf83cfada0e2cf3c0a0b08a40c5267ab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 51/69] fix: IonQBackend.get_probability() of an outcome that
 did not occur is 0

It raised a KeyError.
---
 projectq/backends/_ionq/_ionq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 8c34d2c..e325704 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -252,7 +252,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             raise ValueError('Desired state and register must be the same length!')
 
         probs = self.get_probabilities(qureg)
-        return probs[state]
+        return probs.get(state, 0.0)
 
     def get_probabilities(self, qureg):
         """
-- 
2.43.0


From 3c29b241984fb5847d898f37d7da698930f21abf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 52/69] fix: AzureQuantumBackend forgets the measurements of
 earlier jobs

They were added to every later job.
---
 projectq/backends/_azure/_azure_quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index e0eb3c0..110ef56 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -140,6 +140,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             cmd (Command): Command to store
         """
         if self._clear:
+            self._measured_ids = []
             self._probabilities = {}
             self._clear = False
             self._circuit = None
-- 
2.43.0


From d8b798a0e624f55e5ca4e9478d9a3d54017e8ac9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 53/69] fix: AzureQuantumBackend records the measured bit of
 each qubit

The bits of the outcome are in the order of the measurements but were indexed
with the ids of the qubits, and the text '0' was recorded as True.
---
 projectq/backends/_azure/_azure_quantum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 110ef56..49870c9 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -359,9 +359,9 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
 
         # Set a single measurement result
         bitstring = np.random.choice(list(self._probabilities.keys()), p=list(self._probabilities.values()))
-        for qid in self._measured_ids:
+        for idx, qid in enumerate(self._measured_ids):
             qubit_ref = WeakQubitRef(self.main_engine, qid)
-            self.main_engine.set_measurement_result(qubit_ref, bitstring[qid])
+            self.main_engine.set_measurement_result(qubit_ref, int(bitstring[idx]))
 
     def receive(self, command_list):
         """Receive a command list from the ProjectQ engine pipeline.
-- 
2.43.0


From a41e5cef09ccc4e93663a1e2263ba014790e105b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 54/69] fix: Quantinuum results are those of the measured
 qubits under any mapping

The qubits are measured into the classical bits of their locations, but these
bits were taken to be in the order of the measurements.
---
 projectq/backends/_azure/_azure_quantum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 49870c9..7581b9e 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -352,7 +352,9 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 _rearrange_result(int(k), len(self._measured_ids)): v for k, v in res["histogram"].items()
             }
         elif self._provider_id == QUANTINUUM_PROVIDER_ID:
-            histogram = Counter(res["c"])
+            # the classical bits are those of the locations, the outcomes are in the order of the measurements
+            qubit_mapping = self.main_engine.mapper.current_mapping
+            histogram = Counter("".join(c[qubit_mapping[qid]] for qid in self._measured_ids) for c in res["c"])
             self._probabilities = {k: v / self._num_runs for k, v in histogram.items()}
         else:  # pragma: no cover
             raise RuntimeError("Invalid Azure Quantum target.")
-- 
2.43.0


From 56c6ce5c586edeca7d0f9b5afe77a62d3254de90 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:34:15 +0000
Subject: [PATCH 55/69] fix: IBM and AQT jobs are not submitted again by a
 second flush

A flush without any command since the last one sent the same job once more.
---
 projectq/backends/_aqt/_aqt.py | 4 ++--
 projectq/backends/_ibm/_ibm.py | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 887ee85..ae4fd48 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -231,8 +231,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         # finally: measurements
         # NOTE AQT DOESN'T SEEM TO HAVE MEASUREMENT INSTRUCTIONS (no
         # intermediate measurements are allowed, so implicit at the end)
-        # return if no operations.
-        if not self._circuit:
+        # return if no operations since the last job.
+        if self._clear or not self._circuit:
             return
 
         n_qubit = max(self._allocated_qubits) + 1
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 30b6ad6..9b54478 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -262,6 +262,9 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         Send the circuit via a non documented IBM API (using JSON written
         circuits) using the provided user data / ask for the user token.
         """
+        # nothing has been stored since the last job
+        if self._clear:
+            return
         # finally: add measurements (no intermediate measurements are allowed)
         for measured_id in self._measured_ids:
             qb_loc = self.main_engine.mapper.current_mapping[measured_id]
-- 
2.43.0


From 57806ab359b5f3a285de206af1f8bf67506f4b50 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 56/69] fix: LaTeX drawings format their styles and the nodes
 of boxed gates

---
 projectq/backends/_circuits/_to_latex.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index c2f870b..cd6737b 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -181,18 +181,18 @@ def _header(settings):
     gate_style += "]\n"
 
     gate_style += (
-        "\\tikzstyle{{operator}}=[basic,minimum size=1.5em]\n"
+        "\\tikzstyle{operator}=[basic,minimum size=1.5em]\n"
         f"\\tikzstyle{{phase}}=[fill=black,shape=circle,minimum size={settings['control']['size']}cm,"
         "inner sep=0pt,outer sep=0pt,draw=black"
     )
     if settings['control']['shadow']:
         gate_style += ",basicshadow"
     gate_style += (
-        "]\n\\tikzstyle{{none}}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
-        "\\tikzstyle{{measure}}=[operator,inner sep=0pt,"
+        "]\n\\tikzstyle{none}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
+        "\\tikzstyle{measure}=[operator,inner sep=0pt,"
         f"minimum height={settings['gates']['MeasureGate']['height']}cm,"
         f"minimum width={settings['gates']['MeasureGate']['width']}cm]\n"
-        "\\tikzstyle{{xstyle}}=[circle,basic,minimum height="
+        "\\tikzstyle{xstyle}=[circle,basic,minimum height="
     )
     x_gate_radius = min(settings['gates']['XGate']['height'], settings['gates']['XGate']['width'])
     gate_style += f"{x_gate_radius}cm,minimum width={x_gate_radius}cm,inner sep=-1pt,{settings['lines']['style']}]\n"
@@ -756,7 +756,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         for line in lines:
             node1 = node_str.format(self._op(line), pos, line)
             node2 = (
-                "\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
+                f"\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
                 f"at ({pos + gate_width / 2.0},-{line}) {{}};"
             )
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
-- 
2.43.0


From a1bdbfc26cb2525f7cb28faf2e091b66f574a07f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 57/69] fix: LaTeX drawings name the node between the targets
 of SqrtSwap

---
 projectq/backends/_circuits/_to_latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index cd6737b..49904d3 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -450,7 +450,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         # pylint: disable=consider-using-f-string
         op_mid = f"line{'{}-{}'.format(*lines)}_gate{self.op_count[lines[0]]}"
         dagger = '^{{\\dagger}}' if daggered else ''
-        gate_str += f"\n\\node[xstyle] ({op}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
+        gate_str += f"\n\\node[xstyle] ({op_mid}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
 
         # add two vertical lines to connect circled 1/2
         gate_str += f"\n\\draw ({self._op(lines[0])}) edge[edgestyle] ({op_mid});"
-- 
2.43.0


From 0d50f72d7f41b23101c5bf76d6158c9cccfd159c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 58/69] fix: LaTeX drawings do not need all line numbers to be
 in use

---
 projectq/backends/_circuits/_to_latex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 49904d3..48d9d8e 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -225,11 +225,14 @@ def _body(circuit, settings, drawing_order=None, draw_gates_in_parallel=True):
     """
     code = []
 
-    conv = _Circ2Tikz(settings, len(circuit))
+    # The lines in use need not be numbered consecutively
+    lines = sorted(circuit) if isinstance(circuit, dict) else list(range(len(circuit)))
+
+    conv = _Circ2Tikz(settings, max(lines, default=-1) + 1)
 
     to_where = None
     if drawing_order is None:
-        drawing_order = list(range(len(circuit)))
+        drawing_order = lines
     else:
         to_where = 1
 
-- 
2.43.0


From 82f1a40ab642416ff46f0def9663910c7b0d81ed Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 59/69] fix: LaTeX drawings without parallel gates draw none of
 the gates in parallel

---
 projectq/backends/_circuits/_to_latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 48d9d8e..81393d8 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -317,7 +317,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                 while not circuit[_line][gate_idx] == cmds[i]:
                     gate_idx += 1
 
-                tikz_code.append(self.to_tikz(_line, circuit, gate_idx))
+                tikz_code.append(self.to_tikz(_line, circuit, gate_idx, draw_gates_in_parallel))
 
                 # we are taking care of gate 0 (the current one)
                 circuit[_line] = circuit[_line][1:]
-- 
2.43.0


From bec14a9715e0de6b38de1a344e4669c92ceff9dd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 60/69] fix: ordered LaTeX drawings use the qubit locations

---
 projectq/backends/_circuits/_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 071ad2c..578357c 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -278,7 +278,7 @@ class CircuitDrawer(BasicEngine):
 
         drawing_order = None
         if ordered:
-            drawing_order = self._drawing_order
+            drawing_order = [self._map[qb_id] for qb_id in self._drawing_order]
 
         return to_latex(
             qubit_lines,
-- 
2.43.0


From 6455a686adb8f27866bc09ecf00ff9070fbfab36 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 61/69] fix: circuit drawers keep the gates of a qubit whose id
 is used again

---
 projectq/backends/_circuits/_drawer.py            | 2 +-
 projectq/backends/_circuits/_drawer_matplotlib.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 578357c..9ca7fb7 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -212,7 +212,7 @@ class CircuitDrawer(BasicEngine):
             qubit_id = cmd.qubits[0][0].id
             if qubit_id not in self._map:
                 self._map[qubit_id] = qubit_id
-            self._qubit_lines[qubit_id] = []
+            self._qubit_lines.setdefault(qubit_id, [])
 
         if cmd.gate == Deallocate:
             qubit_id = cmd.qubits[0][0].id
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7c6b585..272ef2d 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -104,7 +104,7 @@ class CircuitDrawerMatplotlib(BasicEngine):
             qb_id = cmd.qubits[0][0].id
             if qb_id not in self._map:
                 self._map[qb_id] = qb_id
-            self._qubit_lines[qb_id] = []
+            self._qubit_lines.setdefault(qb_id, [])
             return
 
         if cmd.gate == Deallocate:
-- 
2.43.0


From ba9d6f8d25293b95be845fa888e8c9055983813f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 62/69] fix: circuit drawers behind a mapper record results for
 the logical qubits

---
 projectq/backends/_circuits/_drawer.py            | 10 +++++++++-
 projectq/backends/_circuits/_drawer_matplotlib.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 9ca7fb7..d278456 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -16,8 +16,9 @@
 
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._to_latex import to_latex
 
@@ -232,6 +233,13 @@ class CircuitDrawer(BasicEngine):
                     else:
                         meas = self._default_measure
                     meas = int(meas)
+                    # Check there was a mapper and redirect result
+                    logical_id_tag = None
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_id_tag = tag
+                    if logical_id_tag is not None:
+                        qubit = WeakQubitRef(qubit.engine, logical_id_tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, meas)
 
         all_lines = [qb.id for qr in cmd.all_qubits for qb in qr]
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 272ef2d..7536720 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -18,8 +18,9 @@ import itertools
 import re
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._plot import to_draw
 
@@ -122,6 +123,13 @@ class CircuitDrawerMatplotlib(BasicEngine):
                             measurement = input(prompt)
                     else:
                         measurement = self._default_measure
+                    # Check there was a mapper and redirect result
+                    logical_id_tag = None
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_id_tag = tag
+                    if logical_id_tag is not None:
+                        qubit = WeakQubitRef(qubit.engine, logical_id_tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, int(measurement))
 
         targets = [qubit.id for qureg in cmd.qubits for qubit in qureg]
-- 
2.43.0


From 99f94fbc0f3d3f59f337a987eb0b163c953e4b82 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 63/69] fix: matplotlib drawings show gates with a name of
 several lines and the dagger after parameters

---
 projectq/backends/_circuits/_drawer_matplotlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7536720..07127d0 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -30,8 +30,9 @@ from ._plot import to_draw
 def _format_gate_str(cmd):
     param_str = ''
     gate_name = str(cmd.gate)
-    if '(' in gate_name:
-        (gate_name, param_str) = re.search(r'(.+)\((.*)\)', gate_name).groups()
+    match = re.search(r'(.+)\((.*)\)(.*)', gate_name, re.DOTALL)
+    if match:
+        (gate_name, param_str, suffix) = match.groups()
         params = re.findall(r'([^,]+)', param_str)
         params_str_list = []
         for param in params:
@@ -43,7 +44,7 @@ def _format_gate_str(cmd):
                 else:
                     params_str_list.append(f"{param[:5]}...")
 
-        gate_name += f"({','.join(params_str_list)})"
+        gate_name += f"({','.join(params_str_list)}){suffix}"
     return gate_name
 
 
-- 
2.43.0


From b861830a3fc6fca443a4b42891279da04b0221d4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 64/69] fix: matplotlib drawings do not need consecutive qubit
 ids

---
 projectq/backends/_circuits/_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_plot.py b/projectq/backends/_circuits/_plot.py
index b450309..a32332d 100644
--- a/projectq/backends/_circuits/_plot.py
+++ b/projectq/backends/_circuits/_plot.py
@@ -105,7 +105,7 @@ def to_draw(qubit_lines, qubit_labels=None, drawing_order=None, **kwargs):
 
     if drawing_order is None:
         n_qubits = len(qubit_lines)
-        drawing_order = {qubit_id: n_qubits - qubit_id - 1 for qubit_id in list(qubit_lines)}
+        drawing_order = {qubit_id: n_qubits - idx - 1 for idx, qubit_id in enumerate(sorted(qubit_lines))}
     else:
         if set(drawing_order) != set(qubit_lines):
             raise RuntimeError("Qubit IDs in drawing_order do not match qubit IDs in qubit_lines!")
-- 
2.43.0


From 05d86b5dfb719649ceeb56dedfc35efc8fd20c41 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:54:13 +0000
Subject: [PATCH 65/69] fix: LaTeX drawings begin the lines that a gate passes
 before the gate

---
 projectq/backends/_circuits/_to_latex.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 81393d8..4424eb2 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -233,6 +233,13 @@ def _body(circuit, settings, drawing_order=None, draw_gates_in_parallel=True):
     to_where = None
     if drawing_order is None:
         drawing_order = lines
+        # Lines have to begin before a gate passes them
+        passed = {
+            line for cmds in (circuit[ll] for ll in lines) for cmd in cmds for line in range(min(cmd.lines), max(cmd.lines))
+        }
+        for line in lines:
+            if line in passed and circuit[line] and circuit[line][0].gate == Allocate:
+                code.append(conv.to_tikz(line, circuit, end=1, draw_gates_in_parallel=draw_gates_in_parallel))
     else:
         to_where = 1
 
@@ -764,7 +771,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
             )
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
             tex_str += node1 + node2 + node3
-            if line not in gate_lines:
+            if line not in gate_lines and self.op_count[line] > 0:
                 tex_str += self._line(self.op_count[line] - 1, self.op_count[line], line=line)
 
         tex_str += (
-- 
2.43.0


From 4cafe7bb4d9954f23a63cb59361f001143cac11b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:00:39 +0000
Subject: [PATCH 66/69] fix: matplotlib drawings do not draw gates on top of
 each other

---
 projectq/backends/_circuits/_plot.py | 36 ++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/projectq/backends/_circuits/_plot.py b/projectq/backends/_circuits/_plot.py
index a32332d..f787920 100644
--- a/projectq/backends/_circuits/_plot.py
+++ b/projectq/backends/_circuits/_plot.py
@@ -112,6 +112,8 @@ def to_draw(qubit_lines, qubit_labels=None, drawing_order=None, **kwargs):
         if set(drawing_order.values()) != set(range(len(drawing_order))):
             raise RuntimeError(f'Indices of qubit wires in drawing_order must be between 0 and {len(drawing_order)}!')
 
+    qubit_lines = separate_gates(qubit_lines, drawing_order)
+
     plot_params = deepcopy(_DEFAULT_PLOT_PARAMS)
     plot_params.update(kwargs)
 
@@ -151,6 +153,40 @@ def to_draw(qubit_lines, qubit_labels=None, drawing_order=None, **kwargs):
 # Functions used to calculate the layout
 
 
+def separate_gates(qubit_lines, drawing_order):
+    """
+    Draw gates of the same column that would overlap in columns of their own.
+
+    Args:
+        qubit_lines (dict): list of gates for each qubit axis
+        drawing_order (dict): index of the wire for each qubit ID to be drawn
+
+    Returns:
+        A dict with the list of gates for each qubit axis, where no gate passes the wires of another gate of its column
+    """
+    separated = {qubit_id: [] for qubit_id in qubit_lines}
+    for idx in range(max((len(line) for line in qubit_lines.values()), default=0)):
+        columns = [{}]
+        for qubit_id, line in qubit_lines.items():
+            if line[idx] is None:
+                continue
+            (_, targets, controls) = line[idx]
+            wires = [drawing_order[qb_id] for qb_id in targets + controls]
+            for column in columns:
+                if all(max(wires) < lower or upper < min(wires) for (lower, upper) in column.values()):
+                    break
+            else:
+                column = {}
+                columns.append(column)
+            column[qubit_id] = (min(wires), max(wires))
+        for column in columns:
+            for qubit_id, line in qubit_lines.items():
+                separated[qubit_id].append(line[idx] if qubit_id in column else None)
+    return separated
+
+
+
+
 def gate_width(axes, gate_str, plot_params):
     """
     Calculate the width of a gate based on its string representation.
-- 
2.43.0


From 935b579f78dab4b2ab468c8f0f8d4e2b241443ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:55:00 +0000
Subject: [PATCH 67/69] fix: weak terms that do not commute are not taken apart
 when they act for a long time

---
 projectq/setups/decompositions/time_evolution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/time_evolution.py b/projectq/setups/decompositions/time_evolution.py
index 2b78e92..54e7453 100644
--- a/projectq/setups/decompositions/time_evolution.py
+++ b/projectq/setups/decompositions/time_evolution.py
@@ -28,13 +28,15 @@ from projectq.ops import CNOT, H, QubitOperator, Rx, Ry, Rz, TimeEvolution
 def _recognize_time_evolution_commuting_terms(cmd):
     """Recognize all TimeEvolution gates with >1 terms but which all commute."""
     hamiltonian = cmd.gate.hamiltonian
+    time = cmd.gate.time
     if len(hamiltonian.terms) == 1:
         return False
     id_op = QubitOperator((), 0.0)
     for term in hamiltonian.terms:
-        test_op = QubitOperator(term, hamiltonian.terms[term])
+        # NB: weak terms matter if they act for a long time
+        test_op = QubitOperator(term, time * hamiltonian.terms[term])
         for other in hamiltonian.terms:
-            other_op = QubitOperator(other, hamiltonian.terms[other])
+            other_op = QubitOperator(other, time * hamiltonian.terms[other])
             commutator = test_op * other_op - other_op * test_op
             if not commutator.isclose(id_op, rel_tol=1e-9, abs_tol=1e-9):
                 return False
-- 
2.43.0


From 078d8ab9b6c5165b4f1ceff107ca55db208ce724 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:27:37 +0000
Subject: [PATCH 68/69] fix: phase estimation finds phases that the ancillas
 can represent

---
 projectq/setups/decompositions/phaseestimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 21b0300..d573407 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -118,8 +118,9 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
                     with Control(eng, ancilla):
                         unitary | system_qubits
 
-        # Inverse QFT on the ancillas
-        get_inverse(QFT) | qpe_ancillas
+        # Inverse QFT on the ancillas. The first ancilla, which has the phase of a single U, is the most significant
+        # digit of the result (NB: the QFT leaves that phase on the last qubit that it is applied to)
+        get_inverse(QFT) | list(reversed(qpe_ancillas))
 
 
     #: Decomposition rules
-- 
2.43.0


From 56ccc471dcab56177e0e64c306a6ca23fc243663 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 08:18:52 +0000
Subject: [PATCH 69/69] fix: uniformly controlled rotations of different sizes
 do not merge

---
 projectq/ops/_uniformly_controlled_rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_uniformly_controlled_rotation.py b/projectq/ops/_uniformly_controlled_rotation.py
index 46cf023..eb4b6f6 100644
--- a/projectq/ops/_uniformly_controlled_rotation.py
+++ b/projectq/ops/_uniformly_controlled_rotation.py
@@ -61,7 +61,7 @@ class UniformlyControlledRy(BasicGate):
 
     def get_merged(self, other):
         """Return self merged with another gate."""
-        if isinstance(other, self.__class__):
+        if isinstance(other, self.__class__) and len(self.angles) == len(other.angles):
             new_angles = [angle1 + angle2 for (angle1, angle2) in zip(self.angles, other.angles)]
             return self.__class__(new_angles)
         raise NotMergeable()
@@ -123,7 +123,7 @@ class UniformlyControlledRz(BasicGate):
 
     def get_merged(self, other):
         """Return self merged with another gate."""
-        if isinstance(other, self.__class__):
+        if isinstance(other, self.__class__) and len(self.angles) == len(other.angles):
             new_angles = [angle1 + angle2 for (angle1, angle2) in zip(self.angles, other.angles)]
             return self.__class__(new_angles)
         raise NotMergeable()
-- 
2.43.0

