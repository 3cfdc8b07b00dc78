From 11149a31d1cd48ea24e1be220997899a7d8e46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 1/6] fix: read ed25519 signature offsets without assuming
 buffer alignment

---
 program/src/sigverify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index f6c033d..1ca74b9 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -146,8 +146,9 @@ impl<'a> SignatureVerification<'a> {
                 .saturating_add(SIGNATURE_OFFSETS_START);
             let end = start.saturating_add(SIGNATURE_OFFSETS_SERIALIZED_SIZE);
 
-            let offsets: &Ed25519SignatureOffsets =
-                bytemuck::try_from_bytes(&sigverify_ix.data[start..end])
+            // The instruction data is a byte buffer with no alignment guarantee
+            let offsets: Ed25519SignatureOffsets =
+                bytemuck::try_pod_read_unaligned(&sigverify_ix.data[start..end])
                     .map_err(|_| SlashingError::InvalidSignatureVerification)?;
 
             // Parse out signature
-- 
2.43.0


From 4c5091c2d9104075b699a53efefd41deba890f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 2/6] fix: count only the signatures that the ed25519
 precompile verified

---
 program/src/sigverify.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index 1ca74b9..0e9de07 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -125,11 +125,9 @@ impl<'a> SignatureVerification<'a> {
         if sigverify_ix.program_id != ed25519_program::id() {
             return Err(SlashingError::MissingSignatureVerification);
         }
-        let num_signatures = u16::from_le_bytes(
-            sigverify_ix.data[0..2]
-                .try_into()
-                .map_err(|_| SlashingError::MissingSignatureVerification)?,
-        );
+        // The precompile verifies exactly `data[0]` signatures, `data[1]` is
+        // unchecked padding
+        let num_signatures = u16::from(sigverify_ix.data[0]);
         if num_signatures < NUM_VERIFICATIONS as u16 {
             return Err(SlashingError::MissingSignatureVerification);
         }
-- 
2.43.0


From 6cd2ae929d78ec7c5c09f916ab0dadca1605a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 3/6] fix: reject signature verifications of data other than
 the executing instruction's

---
 program/src/sigverify.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index 0e9de07..8a44b53 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -120,6 +120,14 @@ impl<'a> SignatureVerification<'a> {
         // Instruction inspection to unpack successful signature verifications
         let current_index = load_current_index_checked(instructions_sysvar)
             .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        // The precompile verified the data of the top level instruction. If we were
+        // invoked through CPI this is not necessarily the data that we received.
+        let current_ix = get_instruction_relative(0, instructions_sysvar)
+            .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        if current_ix.data != instruction_data {
+            msg!("Signature verification is not for the data of the slashing instruction");
+            return Err(SlashingError::InvalidSignatureVerification);
+        }
         let sigverify_ix = get_instruction_relative(relative_index, instructions_sysvar)
             .map_err(|_| SlashingError::MissingSignatureVerification)?;
         if sigverify_ix.program_id != ed25519_program::id() {
-- 
2.43.0


From 8f804317d9cb6326e0a5c1d245b74a39a9cef17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 4/6] fix: ignore bytes past the end of the shred when
 comparing payloads

---
 program/src/shred.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/program/src/shred.rs b/program/src/shred.rs
index 90230fe..2a86b1c 100644
--- a/program/src/shred.rs
+++ b/program/src/shred.rs
@@ -329,7 +329,8 @@ impl<'a> Shred<'a> {
 
     /// Returns true if the other shred has the same (slot, index,
     /// shred-type), but different payload.
-    /// Retransmitter's signature is ignored when comparing payloads.
+    /// Retransmitter's signature, and any bytes past the end of the shred, are
+    /// ignored when comparing payloads.
     pub(crate) fn is_shred_duplicate(&self, other: &Shred) -> bool {
         if (self.slot(), self.index(), self.shred_type())
             != (other.slot(), other.index(), other.shred_type())
@@ -340,9 +341,6 @@ impl<'a> Shred<'a> {
             let Ok((proof_offset, proof_size)) = shred.get_proof_offset_and_size() else {
                 return shred.payload;
             };
-            if !shred.resigned {
-                return shred.payload;
-            }
             let Some(offset) = proof_offset.checked_add(proof_size) else {
                 return shred.payload;
             };
-- 
2.43.0


From b8e81f701f972a53d98fb8c8d39a1d50e183280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 5/6] fix: return errors instead of panicking on malformed
 accounts and instructions

---
 program/src/processor.rs | 5 ++++-
 program/src/sigverify.rs | 7 ++++++-
 program/src/state.rs     | 7 +++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index 4958895..581b032 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -82,7 +82,10 @@ pub fn process_instruction(
         SlashingInstruction::DuplicateBlockProof => {
             let accounts = SlashingAccounts::new(account_info_iter)?;
             let data = decode_instruction_data::<DuplicateBlockProofInstructionData>(input)?;
-            let proof_data = &accounts.proof_account.try_borrow_data()?[data.offset()?..];
+            let proof_account_data = accounts.proof_account.try_borrow_data()?;
+            let proof_data = proof_account_data
+                .get(data.offset()?..)
+                .ok_or(SlashingError::ProofBufferTooSmall)?;
             let violation_report = ViolationReport {
                 version: ViolationReport::VERSION,
                 reporter: data.reporter,
diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index 8a44b53..2c617f5 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -135,7 +135,12 @@ impl<'a> SignatureVerification<'a> {
         }
         // The precompile verifies exactly `data[0]` signatures, `data[1]` is
         // unchecked padding
-        let num_signatures = u16::from(sigverify_ix.data[0]);
+        let num_signatures = u16::from(
+            *sigverify_ix
+                .data
+                .first()
+                .ok_or(SlashingError::MissingSignatureVerification)?,
+        );
         if num_signatures < NUM_VERIFICATIONS as u16 {
             return Err(SlashingError::MissingSignatureVerification);
         }
diff --git a/program/src/state.rs b/program/src/state.rs
index 12a889e..17c1eab 100644
--- a/program/src/state.rs
+++ b/program/src/state.rs
@@ -318,8 +318,11 @@ pub(crate) fn close_violation_report<'a, 'b>(
     destination_account: &'a AccountInfo<'b>,
 ) -> Result<(), ProgramError> {
     let report_data = report_account.try_borrow_data()?;
-    let report: &ViolationReport =
-        pod_from_bytes(&report_data[0..std::mem::size_of::<ViolationReport>()])?;
+    let report: &ViolationReport = pod_from_bytes(
+        report_data
+            .get(0..std::mem::size_of::<ViolationReport>())
+            .ok_or(SlashingError::InvalidViolationReportAcccount)?,
+    )?;
     let destination = report.destination;
 
     if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
-- 
2.43.0


From a9944a54f9dd1fc344860d59a3511bab44ceb207 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 6/6] verif hooks: include the contracts under cfg(kani)

---
 program/src/address.rs               | 5 +++++
 program/src/duplicate_block_proof.rs | 5 +++++
 program/src/instruction.rs           | 5 +++++
 program/src/lib.rs                   | 5 +++++
 program/src/processor.rs             | 5 +++++
 program/src/shred.rs                 | 5 +++++
 program/src/state.rs                 | 5 +++++
 7 files changed, 35 insertions(+)

diff --git a/program/src/address.rs b/program/src/address.rs
index f128ce7..f84c1db 100644
--- a/program/src/address.rs
+++ b/program/src/address.rs
@@ -43,3 +43,8 @@ impl<'a> ViolationReportAddress<'a> {
         ]
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SLASHING_VERIF_DIR"), "/address.rs"));
+}
diff --git a/program/src/duplicate_block_proof.rs b/program/src/duplicate_block_proof.rs
index 96b9263..ca1d76c 100644
--- a/program/src/duplicate_block_proof.rs
+++ b/program/src/duplicate_block_proof.rs
@@ -1238,3 +1238,8 @@ mod tests {
         );
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SLASHING_VERIF_DIR"), "/duplicate_block_proof.rs"));
+}
diff --git a/program/src/instruction.rs b/program/src/instruction.rs
index c3ac532..907fa74 100644
--- a/program/src/instruction.rs
+++ b/program/src/instruction.rs
@@ -372,3 +372,8 @@ mod tests {
         assert_eq!(err, SlashingError::InvalidInstruction.into());
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SLASHING_VERIF_DIR"), "/instruction.rs"));
+}
diff --git a/program/src/lib.rs b/program/src/lib.rs
index deec1fc..04859dd 100644
--- a/program/src/lib.rs
+++ b/program/src/lib.rs
@@ -11,6 +11,11 @@ mod shred;
 mod sigverify;
 pub mod state;
 
+#[cfg(kani)]
+mod verif {
+    include!(concat!(env!("SLASHING_VERIF_DIR"), "/lib.rs"));
+}
+
 // Export current SDK types for downstream users building with a different SDK
 // version
 pub use solana_program;
diff --git a/program/src/processor.rs b/program/src/processor.rs
index 581b032..30e5f96 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -286,3 +286,8 @@ mod tests {
         )
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SLASHING_VERIF_DIR"), "/processor.rs"));
+}
diff --git a/program/src/shred.rs b/program/src/shred.rs
index 2a86b1c..c94f9ce 100644
--- a/program/src/shred.rs
+++ b/program/src/shred.rs
@@ -570,3 +570,8 @@ pub(crate) mod tests {
         }
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SLASHING_VERIF_DIR"), "/shred.rs"));
+}
diff --git a/program/src/state.rs b/program/src/state.rs
index 17c1eab..73f2196 100644
--- a/program/src/state.rs
+++ b/program/src/state.rs
@@ -369,3 +369,8 @@ mod tests {
         assert_eq!(PACKET_DATA_SIZE, solana_sdk::packet::PACKET_DATA_SIZE);
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SLASHING_VERIF_DIR"), "/state.rs"));
+}
-- 
2.43.0

