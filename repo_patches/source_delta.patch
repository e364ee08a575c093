From 612200c576fa75b7ed47d23ed9b11bb03a0cf4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 01/22] fix: apply a unitary when a released qubit left a gap
 in the qubit locations

---
 sparsesim/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 52cb748..628dd10 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1244,10 +1244,12 @@ impl QuantumSim {
                     .id_map
                     .iter()
                     .find(|&(_, &value)| value == target_loc)
-                    .unwrap()
-                    .0;
+                    .map(|(key, _)| key);
                 self.swap_qubit_state(loc, target_loc);
-                *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                // After a release there may be no qubit mapped to this location.
+                if let Some(swap_id) = swap_id {
+                    *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                }
                 *(self.id_map.get_mut(*target).unwrap()) = target_loc;
             });
 
-- 
2.43.0


From 7a51c7dc6cee52f3f3442f7aa0a63fe88c20bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 02/22] fix: a pending Rx by a multiple of pi flipped the sign
 of a later pending Ry

---
 sparsesim/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 628dd10..dc5c443 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1040,12 +1040,11 @@ impl QuantumSim {
             };
 
         if m00.is_nearly_zero() {
-            // This is just a Pauli rotation.
-            if sign_flip {
-                self.mcy(ctls, target);
-            } else {
-                self.mcx(ctls, target);
-            }
+            // This is just a Pauli rotation. Any conflicting pending operations are already flushed, and those
+            // still pending on the target come after this rotation, so the Pauli is applied directly to the state
+            // rather than commuted past them as `mcx` and `mcy` would.
+            let op = if sign_flip { OpCode::Y } else { OpCode::X };
+            self.enqueue_op(target, ctls.into(), op);
             // Rx/Ry are different from X/Y by a global phase of -i, so apply that here when indicated by m01,
             // for mathematical correctness.
             let (_, ctls) = self.resolve_and_check_qubits(target, ctls);
-- 
2.43.0


From 7de876f50f2e9d68dd79ce5189d43a0e4803dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 03/22] fix: releasing an unallocated qubit reset the state
 when one qubit was live

---
 sparsesim/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index dc5c443..6f91c12 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -178,6 +178,11 @@ impl QuantumSim {
     ///
     /// The function will panic if the given id does not correpsond to an allocated qubit.
     pub fn release(&mut self, id: usize) {
+        assert!(
+            self.id_map.contains_key(id),
+            "Unable to find qubit with id {id}"
+        );
+
         if self.id_map.iter().count() == 1 {
             // This is a release of the last qubit.
             // When no qubits are allocated, we can reset the sparse state to a clean ground, so
-- 
2.43.0


From 0aed705242387cb134cab34445bbdf784f9b252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 04/22] fix: swapping with an unallocated qubit moved pending
 gates before it was refused

---
 sparsesim/src/lib.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 6f91c12..2723a2a 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -467,6 +467,15 @@ impl QuantumSim {
     /// # Panics
     /// This function will panic if either of the given identifiers do not correspond to an allocated qubit.
     pub fn swap_qubit_ids(&mut self, qubit1: usize, qubit2: usize) {
+        let qubit1_mapped = *self
+            .id_map
+            .get(qubit1)
+            .unwrap_or_else(|| panic!("Unable to find qubit with id {qubit1}"));
+        let qubit2_mapped = *self
+            .id_map
+            .get(qubit2)
+            .unwrap_or_else(|| panic!("Unable to find qubit with id {qubit2}"));
+
         self.flush_ops();
 
         // Must also swap any queued operations.
@@ -503,14 +512,6 @@ impl QuantumSim {
             self.ry_queue.remove(qubit1);
         }
 
-        let qubit1_mapped = *self
-            .id_map
-            .get(qubit1)
-            .unwrap_or_else(|| panic!("Unable to find qubit with id {qubit1}"));
-        let qubit2_mapped = *self
-            .id_map
-            .get(qubit2)
-            .unwrap_or_else(|| panic!("Unable to find qubit with id {qubit2}"));
         *self.id_map.get_mut(qubit1).unwrap() = qubit2_mapped;
         *self.id_map.get_mut(qubit2).unwrap() = qubit1_mapped;
     }
-- 
2.43.0


From 2f13d19cbe56b1b9af4cb6ab252c29b2a8c11584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 05/22] fix: gates on unallocated or duplicate qubits were
 queued instead of refused

---
 sparsesim/src/lib.rs | 52 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 2723a2a..9d54110 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -547,6 +547,22 @@ impl QuantumSim {
         }
     }
 
+    /// Verifies that the given target and controls all correspond to allocated qubits and that there are no
+    /// duplicates among them. Gates check this before they change or queue anything, so that a gate on an
+    /// invalid qubit is an error at the point of use rather than when (or whether) it is later applied.
+    fn check_qubits(&self, ctls: &[usize], target: usize) {
+        for (index, id) in ctls.iter().chain([&target]).enumerate() {
+            assert!(
+                self.id_map.contains_key(*id),
+                "Unable to find qubit with id {id}"
+            );
+            assert!(
+                !ctls.iter().take(index).any(|c| c == id),
+                "Duplicate qubit id '{id}' found in application."
+            );
+        }
+    }
+
     /// Verifies that the given target and list of controls does not contain any duplicate entries, and returns
     /// those values mapped to internal identifiers and converted to `u64`.
     fn resolve_and_check_qubits(&self, target: usize, ctls: &[usize]) -> (u64, Vec<u64>) {
@@ -643,6 +659,8 @@ impl QuantumSim {
 
     /// Single qubit X gate.
     pub fn x(&mut self, target: usize) {
+        self.check_qubits(&[], target);
+
         if let Some(entry) = self.ry_queue.get_mut(target) {
             // XY = -YX, so switch the sign on any queued Ry rotations.
             *entry *= -1.0;
@@ -657,6 +675,8 @@ impl QuantumSim {
 
     /// Multi-controlled X gate.
     pub fn mcx(&mut self, ctls: &[usize], target: usize) {
+        self.check_qubits(ctls, target);
+
         if ctls.is_empty() {
             self.x(target);
             return;
@@ -701,6 +721,8 @@ impl QuantumSim {
 
     /// Single qubit Y gate.
     pub fn y(&mut self, target: usize) {
+        self.check_qubits(&[], target);
+
         if let Some(entry) = self.rx_queue.get_mut(target) {
             // XY = -YX, so flip the sign on any queued Rx rotation.
             *entry *= -1.0;
@@ -712,6 +734,8 @@ impl QuantumSim {
     /// Multi-controlled Y gate.
     #[allow(clippy::missing_panics_doc)] // reason="Panics can only occur if ctrls are empty, which is handled at the top of the function."
     pub fn mcy(&mut self, ctls: &[usize], target: usize) {
+        self.check_qubits(ctls, target);
+
         if ctls.is_empty() {
             self.y(target);
             return;
@@ -749,6 +773,8 @@ impl QuantumSim {
 
     /// Multi-controlled phase rotation ("G" gate).
     pub fn mcphase(&mut self, ctls: &[usize], phase: Complex64, target: usize) {
+        self.check_qubits(ctls, target);
+
         self.flush_queue(ctls, FlushLevel::HRxRy);
         self.flush_queue(&[target], FlushLevel::HRxRy);
 
@@ -768,6 +794,8 @@ impl QuantumSim {
 
     /// Single qubit Z gate.
     pub fn z(&mut self, target: usize) {
+        self.check_qubits(&[], target);
+
         if let Some(entry) = self.ry_queue.get_mut(target) {
             // ZY = -YZ, so flip the sign on any queued Ry rotations.
             *entry *= -1.0;
@@ -788,6 +816,8 @@ impl QuantumSim {
 
     /// Multi-controlled Z gate.
     pub fn mcz(&mut self, ctls: &[usize], target: usize) {
+        self.check_qubits(ctls, target);
+
         if ctls.is_empty() {
             self.z(target);
             return;
@@ -842,12 +872,14 @@ impl QuantumSim {
 
     /// Single qubit S gate.
     pub fn s(&mut self, target: usize) {
+        self.check_qubits(&[], target);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, Vec::new(), OpCode::S);
     }
 
     /// Multi-controlled S gate.
     pub fn mcs(&mut self, ctls: &[usize], target: usize) {
+        self.check_qubits(ctls, target);
         self.maybe_flush_queue(ctls, FlushLevel::HRxRy);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, ctls.into(), OpCode::S);
@@ -860,12 +892,14 @@ impl QuantumSim {
 
     /// Single qubit Adjoint S Gate.
     pub fn sadj(&mut self, target: usize) {
+        self.check_qubits(&[], target);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, Vec::new(), OpCode::Sadj);
     }
 
     /// Multi-controlled Adjoint S gate.
     pub fn mcsadj(&mut self, ctls: &[usize], target: usize) {
+        self.check_qubits(ctls, target);
         self.maybe_flush_queue(ctls, FlushLevel::HRxRy);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, ctls.into(), OpCode::Sadj);
@@ -882,12 +916,14 @@ impl QuantumSim {
 
     /// Single qubit T gate.
     pub fn t(&mut self, target: usize) {
+        self.check_qubits(&[], target);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, Vec::new(), OpCode::T);
     }
 
     /// Multi-controlled T gate.
     pub fn mct(&mut self, ctls: &[usize], target: usize) {
+        self.check_qubits(ctls, target);
         self.maybe_flush_queue(ctls, FlushLevel::HRxRy);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, ctls.into(), OpCode::T);
@@ -904,12 +940,14 @@ impl QuantumSim {
 
     /// Single qubit Adjoint T gate.
     pub fn tadj(&mut self, target: usize) {
+        self.check_qubits(&[], target);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, Vec::new(), OpCode::Tadj);
     }
 
     /// Multi-controlled Adjoint T gate.
     pub fn mctadj(&mut self, ctls: &[usize], target: usize) {
+        self.check_qubits(ctls, target);
         self.maybe_flush_queue(ctls, FlushLevel::HRxRy);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, ctls.into(), OpCode::Tadj);
@@ -925,12 +963,14 @@ impl QuantumSim {
 
     /// Single qubit Rz gate.
     pub fn rz(&mut self, theta: f64, target: usize) {
+        self.check_qubits(&[], target);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, Vec::new(), OpCode::Rz(theta));
     }
 
     /// Multi-controlled Rz gate.
     pub fn mcrz(&mut self, ctls: &[usize], theta: f64, target: usize) {
+        self.check_qubits(ctls, target);
         self.maybe_flush_queue(ctls, FlushLevel::HRxRy);
         self.maybe_flush_queue(&[target], FlushLevel::HRxRy);
         self.enqueue_op(target, ctls.into(), OpCode::Rz(theta));
@@ -938,6 +978,8 @@ impl QuantumSim {
 
     /// Single qubit H gate.
     pub fn h(&mut self, target: usize) {
+        self.check_qubits(&[], target);
+
         if let Some(entry) = self.ry_queue.get_mut(target) {
             // YH = -HY, so flip the sign on any queued Ry rotations.
             *entry *= -1.0;
@@ -954,6 +996,8 @@ impl QuantumSim {
 
     /// Multi-controlled H gate.
     pub fn mch(&mut self, ctls: &[usize], target: usize) {
+        self.check_qubits(ctls, target);
+
         self.flush_queue(ctls, FlushLevel::HRxRy);
         if self.ry_queue.contains_key(target) || self.rx_queue.contains_key(target) {
             self.flush_queue(&[target], FlushLevel::HRxRy);
@@ -1142,6 +1186,8 @@ impl QuantumSim {
 
     /// Single qubit Rx gate.
     pub fn rx(&mut self, theta: f64, target: usize) {
+        self.check_qubits(&[], target);
+
         if self.h_flag.bit(target as u64) || self.ry_queue.contains_key(target) {
             self.flush_queue(&[target], FlushLevel::HRxRy);
         }
@@ -1157,6 +1203,8 @@ impl QuantumSim {
 
     /// Multi-controlled Rx gate.
     pub fn mcrx(&mut self, ctls: &[usize], theta: f64, target: usize) {
+        self.check_qubits(ctls, target);
+
         self.flush_queue(ctls, FlushLevel::HRxRy);
 
         if self.ry_queue.contains_key(target) {
@@ -1170,6 +1218,8 @@ impl QuantumSim {
 
     /// Single qubit Ry gate.
     pub fn ry(&mut self, theta: f64, target: usize) {
+        self.check_qubits(&[], target);
+
         if let Some(entry) = self.ry_queue.get_mut(target) {
             *entry += theta;
             if entry.is_nearly_zero() {
@@ -1182,6 +1232,8 @@ impl QuantumSim {
 
     /// Multi-controlled Ry gate.
     pub fn mcry(&mut self, ctls: &[usize], theta: f64, target: usize) {
+        self.check_qubits(ctls, target);
+
         self.flush_queue(ctls, FlushLevel::HRxRy);
 
         if self.rx_queue.contains_key(target) {
-- 
2.43.0


From a7c25e3c2ac2bd6d0c6a8c71b31cfdafe6d5ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 06/22] fix: releasing a qubit array freed it while references
 remained and leaked its elements

---
 backend/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/src/lib.rs b/backend/src/lib.rs
index 4893ee9..a97e4c2 100644
--- a/backend/src/lib.rs
+++ b/backend/src/lib.rs
@@ -978,7 +978,7 @@ pub unsafe extern "C" fn __quantum__rt__qubit_release_array(arr: *const QirArray
             let elem = __quantum__rt__array_get_element_ptr_1d(arr, index).cast::<*mut c_void>();
             __quantum__rt__qubit_release(*elem);
         }
-        __quantum__rt__array_update_alias_count(arr, -1);
+        __quantum__rt__array_update_reference_count(arr, -1);
     }
 }
 
-- 
2.43.0


From 8ad3096ad0c2baad5535b1e7a9e5661fe0581a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 07/22] fix: reading recorded output returned the same bytes
 again and again

---
 stdlib/src/output_recording.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/output_recording.rs b/stdlib/src/output_recording.rs
index 8a00ef9..04fc508 100644
--- a/stdlib/src/output_recording.rs
+++ b/stdlib/src/output_recording.rs
@@ -41,7 +41,9 @@ impl Write for OutputRecorder {
 
 impl Read for OutputRecorder {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        self.buffer.as_slice().read(buf)
+        let count = self.buffer.as_slice().read(buf)?;
+        self.buffer.drain(..count);
+        Ok(count)
     }
 }
 
-- 
2.43.0


From aa51c5c68c101ca4e3f22c5e89ba55ccfcc160ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 08/22] fix: link the documented
 __quantum__rt__message_record_output in the runner

---
 runner/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 2b7f249..56b90be 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -579,6 +579,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__rt__int_to_string, 1);
     bind!(__quantum__rt__memory_allocate, 1);
     bind!(__quantum__rt__message, 1);
+    bind!(__quantum__rt__message_record_output, 1);
     bind!(__quantum__rt__pauli_to_string, 1);
     bind!(__quantum__rt__qubit_allocate, 0);
     bind!(__quantum__rt__qubit_allocate_array, 1);
-- 
2.43.0


From b3e9951b0a7f1c6efa0b0d63e85107f3e4822480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 09/22] fix: refuse output recording functions declared with
 the wrong number of parameters

---
 runner/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 56b90be..149ad5d 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -369,6 +369,13 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     macro_rules! legacy_output {
         ($func:ident) => {
             if let Some(func) = declarations.get(stringify!($func)) {
+                if !func.get_params().is_empty() {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 0, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
+                }
                 execution_engine.add_global_mapping(
                     func,
                     qir_backend::output_recording::legacy::$func as *const () as usize,
@@ -391,10 +398,16 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                     );
                     declarations.remove(stringify!($func));
                     Some(true)
-                } else {
+                } else if func.get_params().len() == 2 {
                     execution_engine.add_global_mapping(func, $func as *const () as usize);
                     declarations.remove(stringify!($func));
                     Some(false)
+                } else {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 1 or 2, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
                 }
             } else {
                 None
@@ -502,13 +515,18 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(true)
-            } else {
+            } else if func.get_params().len() == 2 {
                 execution_engine.add_global_mapping(
                     func,
                     __quantum__rt__result_record_output as *const () as usize,
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(false)
+            } else {
+                return Err(format!(
+                    "Function '__quantum__rt__result_record_output' has mismatched parameters: expected 1 or 2, found {}",
+                    func.get_params().len()
+                ));
             }
         } else {
             None
-- 
2.43.0


From fff08bc7799748920f112f61c56ddc0683f39aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 10/22] fix: count array and tuple records as current output
 recording

---
 runner/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 149ad5d..96f5bd4 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -496,6 +496,12 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__rt__array_create_1d, 2);
 
     // New calls
+    for name in [
+        "__quantum__rt__array_record_output",
+        "__quantum__rt__tuple_record_output",
+    ] {
+        uses_legacy.push(declarations.contains_key(name).then_some(false));
+    }
     bind!(__quantum__rt__array_record_output, 2);
     bind!(__quantum__rt__tuple_record_output, 2);
 
-- 
2.43.0


From 74586a4d5b02dfdfad872e4998f37434ce8341c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 11/22] fix: link assertmeasurementprobability__ctl with its
 two parameters

---
 runner/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 96f5bd4..5314a03 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -427,7 +427,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__qis__arctan__body, 1);
     bind!(__quantum__qis__arctan2__body, 2);
     bind!(__quantum__qis__assertmeasurementprobability__body, 6);
-    bind!(__quantum__qis__assertmeasurementprobability__ctl, 6);
+    bind!(__quantum__qis__assertmeasurementprobability__ctl, 2);
     bind!(__quantum__qis__barrier__body, 0);
     bind!(__quantum__qis__ccx__body, 3);
     bind!(__quantum__qis__cnot__body, 2);
-- 
2.43.0


From 98862acaed8a5dd08c8317bfd21e4f4ad536dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 12/22] fix: refuse a path that is not valid Unicode with an
 error instead of a panic

---
 runner/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 5314a03..d0e1fe6 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -230,6 +230,10 @@ fn run_module(
 
 fn load_file(path: impl AsRef<Path>, context: &Context) -> Result<Module<'_>, String> {
     let path = path.as_ref();
+    // LLVM's file functions take the path as a string and panic when it is not valid Unicode.
+    if path.to_str().is_none() {
+        return Err(format!("Path '{}' is not valid Unicode.", path.display()));
+    }
     let extension = path.extension().and_then(OsStr::to_str);
 
     match extension {
-- 
2.43.0


From bd0a15deb9a710f88e9e6240dbc0cfb94cc11885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 13/22] fix: do not hold the output recorder while writing
 records to the caller's writer

---
 runner/src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index d0e1fe6..71fb076 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -209,13 +209,12 @@ fn run_module(
         __quantum__rt__initialize(null_mut());
         unsafe { run_entry_point(&execution_engine, entry_point)? }
 
-        // Write the saved output records to the output_writer
-        OUTPUT.with(|output| {
-            let mut output = output.borrow_mut();
-            output_writer
-                .write_all(output.drain().as_slice())
-                .expect("Failed to write output");
-        });
+        // Write the saved output records to the output_writer, which may itself
+        // run another program and so needs the recorder to be available.
+        let records: Vec<u8> = OUTPUT.with(|output| output.borrow_mut().drain().collect());
+        output_writer
+            .write_all(&records)
+            .expect("Failed to write output");
 
         // Write the end of the shot
         output_writer
-- 
2.43.0


From 1ce102663b304aa4e79ec4f8937a36a032187898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 14/22] fix: keep recording for the callback after it ran
 another program that prints

---
 pip/src/python.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pip/src/python.rs b/pip/src/python.rs
index 0be7795..d104562 100644
--- a/pip/src/python.rs
+++ b/pip/src/python.rs
@@ -38,15 +38,16 @@ impl std::io::Write for OptionalCallbackReceiver<'_> {
         if let Some(callback) = &self.callback {
             let msg = std::str::from_utf8(buf).expect("should be able to convert to utf8");
             let out = msg.to_owned();
-            callback
-                .call1(
+            let result = callback.call1(
+                self.py,
+                PyTuple::new(
                     self.py,
-                    PyTuple::new(
-                        self.py,
-                        &[Py::new(self.py, Output(out)).expect("should be able to create output")],
-                    )?,
-                )
-                .map_err(std::io::Error::other)?;
+                    &[Py::new(self.py, Output(out)).expect("should be able to create output")],
+                )?,
+            );
+            // The callback may have run another program that prints to the console.
+            OUTPUT.with(|output| output.borrow_mut().use_std_out(false));
+            result.map_err(std::io::Error::other)?;
             Ok(msg.len())
         } else {
             std::io::stdout().write(buf)
-- 
2.43.0


From 9122dbf544b2493febb4df5991fd7eab680400be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 15/22] fix: refuse array and tuple sizes that overflow instead
 of allocating too little

In a release build the size of an array (element size times count) and of
a tuple (size plus header) wrapped around, so that the program was given
an object smaller than it asked for and wrote outside of it.
---
 stdlib/src/arrays.rs | 5 ++++-
 stdlib/src/tuples.rs | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/stdlib/src/arrays.rs b/stdlib/src/arrays.rs
index edc4953..3f3a96c 100644
--- a/stdlib/src/arrays.rs
+++ b/stdlib/src/arrays.rs
@@ -27,7 +27,10 @@ pub extern "C" fn __quantum__rt__array_create_1d(elem_size: u32, count: u64) ->
     let count: usize = count
         .try_into()
         .expect("The `count` argument should fit in the `usize` type for this platform.");
-    let data = vec![0_u8; elem_size * count];
+    let size = count
+        .checked_mul(elem_size)
+        .expect("The size of the array should fit in the `usize` type for this platform.");
+    let data = vec![0_u8; size];
     Rc::into_raw(Rc::new(QirArray { elem_size, data }))
 }
 
diff --git a/stdlib/src/tuples.rs b/stdlib/src/tuples.rs
index 9f5a48f..3765972 100644
--- a/stdlib/src/tuples.rs
+++ b/stdlib/src/tuples.rs
@@ -13,8 +13,9 @@ pub extern "C" fn __quantum__rt__tuple_create(size: u64) -> *mut *const Vec<u8>
     let mut mem = vec![
         0_u8;
         <usize as std::convert::TryFrom<u64>>::try_from(size)
+            .ok()
+            .and_then(|size| size.checked_add(size_of::<*const Vec<u8>>()))
             .expect("Tuple size too large for `usize` type on this platform.")
-            + size_of::<*const Vec<u8>>()
     ];
 
     unsafe {
-- 
2.43.0


From 97a7d58bacac52ce27b11f22ec1ef3dabce49a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 16/22] fix: refuse entry points whose return value the engine
 cannot hand back

---
 runner/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 71fb076..6e46fd9 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -244,12 +244,20 @@ fn load_file(path: impl AsRef<Path>, context: &Context) -> Result<Module<'_>, St
     }
 }
 
+/// The execution engine can only call functions that return nothing or an integer of a machine width;
+/// calling one with any other return type is undefined behavior.
+fn returns_nothing_or_integer(function: FunctionValue) -> bool {
+    function.get_type().get_return_type().is_none_or(|ty| {
+        ty.is_int_type() && matches!(ty.into_int_type().get_bit_width(), 1 | 8 | 16 | 32 | 64)
+    })
+}
+
 unsafe fn run_entry_point(
     execution_engine: &ExecutionEngine,
     entry_point: FunctionValue,
 ) -> Result<(), String> {
     unsafe {
-        if entry_point.count_params() == 0 {
+        if entry_point.count_params() == 0 && returns_nothing_or_integer(entry_point) {
             execution_engine.run_function(entry_point, &[]);
             Ok(())
         } else {
-- 
2.43.0


From d12ac65a409720945b9ba12493b84caa5191d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 17/22] fix: run entry points that carry LLVM's own attributes
 instead of panicking

---
 runner/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 6e46fd9..201a128 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -174,6 +174,8 @@ fn run_module(
     let attrs: Vec<(String, String)> = entry_point
         .attributes(AttributeLoc::Function)
         .iter()
+        // Attributes LLVM defines itself, such as `nounwind`, have no strings to report.
+        .filter(|attr| attr.is_string())
         .map(|attr| {
             (
                 attr.get_string_kind_id()
-- 
2.43.0


From 253ffb6ffa09b1e27533f7a969c20eedee65dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 18/22] fix: report names and attributes that are not UTF-8 as
 errors instead of panicking

---
 runner/src/lib.rs | 43 +++++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 201a128..6bd00e7 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -177,18 +177,16 @@ fn run_module(
         // Attributes LLVM defines itself, such as `nounwind`, have no strings to report.
         .filter(|attr| attr.is_string())
         .map(|attr| {
-            (
-                attr.get_string_kind_id()
-                    .to_str()
-                    .expect("Invalid UTF8 data")
-                    .to_string(),
-                attr.get_string_value()
-                    .to_str()
-                    .expect("Invalid UTF8 data")
-                    .to_string(),
-            )
+            let kind = attr.get_string_kind_id().to_str();
+            let value = attr.get_string_value().to_str();
+            match (kind, value) {
+                (Ok(kind), Ok(value)) => Ok((kind.to_string(), value.to_string())),
+                (Err(e), _) | (_, Err(e)) => {
+                    Err(format!("Entry point attribute is not valid UTF-8: {e}"))
+                }
+            }
         })
-        .collect();
+        .collect::<Result<_, String>>()?;
 
     for _ in 1..=shots {
         output_writer
@@ -345,21 +343,14 @@ fn run_basic_passes_on(
 fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result<(), String> {
     let mut uses_legacy = vec![];
     let mut declarations: HashMap<String, FunctionValue> = HashMap::default();
-    for func in module_functions(module).filter(|f| {
-        f.count_basic_blocks() == 0
-            && !f
-                .get_name()
-                .to_str()
-                .expect("Unable to coerce function name into str.")
-                .starts_with("llvm.")
-    }) {
-        declarations.insert(
-            func.get_name()
-                .to_str()
-                .expect("Unable to coerce function name into str.")
-                .to_owned(),
-            func,
-        );
+    for func in module_functions(module).filter(|f| f.count_basic_blocks() == 0) {
+        let name = func
+            .get_name()
+            .to_str()
+            .map_err(|e| format!("Function name is not valid UTF-8: {e}"))?;
+        if !name.starts_with("llvm.") {
+            declarations.insert(name.to_owned(), func);
+        }
     }
 
     macro_rules! bind {
-- 
2.43.0


From 4133fda739a3ae9744f774a11592a718f1376ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 19/22] fix: refuse to link unknown functions whose names start
 with "llvm."

---
 runner/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 6bd00e7..dd552f8 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -348,7 +348,8 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
             .get_name()
             .to_str()
             .map_err(|e| format!("Function name is not valid UTF-8: {e}"))?;
-        if !name.starts_with("llvm.") {
+        // Not every name that starts with "llvm." is an intrinsic function known to LLVM.
+        if func.get_intrinsic_id() == 0 {
             declarations.insert(name.to_owned(), func);
         }
     }
-- 
2.43.0


From abefb753968188a33f1a2fa2e9ac05df0938ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 20/22] fix: refuse programs with undefined global variables
 instead of crashing

---
 runner/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index dd552f8..101aa07 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -638,6 +638,12 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
         || uses_legacy.iter().filter_map(|&b| b).all(|b| !b))
     {
         Err("Use of legacy and current output recording functions in the same program is not supported".to_string())
+    } else if let Some(global) = module.get_globals().find(|g| g.is_declaration()) {
+        // The runtime provides no global variables.
+        Err(format!(
+            "Failed to link a declared global variable: {}",
+            global.get_name().to_string_lossy()
+        ))
     } else if declarations.is_empty() {
         Ok(())
     } else {
-- 
2.43.0


From e03c85565a459e9b28df0efa651920c21b558b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 21/22] fix: run programs that name another target instead of
 crashing

---
 runner/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 101aa07..7b4eb1c 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -330,6 +330,9 @@ fn run_basic_passes_on(
             CodeModel::Default,
         )
         .ok_or("Unable to create TargetMachine from Target")?;
+    // The program runs on this machine, whichever one it was compiled for.
+    module.set_triple(target_triple);
+    module.set_data_layout(&target_machine.get_target_data().get_data_layout());
     module
         .run_passes(
             BASIC_PASS_PIPELINE,
-- 
2.43.0


From dc4d959a775cf91457e7fa40bda5bd8597df88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 22/22] fix: draw doubles from ranges wider than a double can
 express instead of ending the process

---
 stdlib/src/math.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 8338321..b73a62f 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -123,5 +123,9 @@ pub extern "C" fn __quantum__qis__drawrandomdouble__body(min: c_double, max: c_d
             __quantum__rt__fail(convert(&"Invalid Argument: minimum > maximum".to_string()));
         }
     }
+    if min.is_finite() && max.is_finite() && !(max - min).is_finite() {
+        // The width of the range overflows: draw from a range of half the width.
+        return rand::rng().random_range(min / 2.0..=max / 2.0) * 2.0;
+    }
     rand::rng().random_range(min..=max)
 }
-- 
2.43.0

