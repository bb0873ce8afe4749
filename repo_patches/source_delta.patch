From c8568f7c832d22526782d0ed997154bf5aa11504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 01/11] fix: count verified signatures the way the ed25519
 precompile does

The precompile reads the number of signatures from the first byte of its
data only, the second byte is padding. Reading both as a u16 made [1, 1]
look like 257 verified signatures when only one was verified.
---
 program/src/sigverify.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index f6c033d..6c6a60a 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -125,12 +125,13 @@ impl<'a> SignatureVerification<'a> {
         if sigverify_ix.program_id != ed25519_program::id() {
             return Err(SlashingError::MissingSignatureVerification);
         }
-        let num_signatures = u16::from_le_bytes(
-            sigverify_ix.data[0..2]
-                .try_into()
-                .map_err(|_| SlashingError::MissingSignatureVerification)?,
-        );
-        if num_signatures < NUM_VERIFICATIONS as u16 {
+        // The precompile only looks at the first byte for the number of signatures,
+        // the second byte is padding
+        let num_signatures = *sigverify_ix
+            .data
+            .first()
+            .ok_or(SlashingError::MissingSignatureVerification)?;
+        if usize::from(num_signatures) < NUM_VERIFICATIONS {
             return Err(SlashingError::MissingSignatureVerification);
         }
         let expected_data_size = NUM_VERIFICATIONS
-- 
2.43.0


From a6f30610e74731d5c7857979e8be2ac5ad646ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 02/11] fix: refuse signature verifications of another
 instruction's data

When invoked by another program the instructions sysvar describes the top
level instruction, so the precompile has verified that instruction's data
and not the data passed to the slashing program.
---
 program/src/sigverify.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index 6c6a60a..245d560 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -120,6 +120,15 @@ impl<'a> SignatureVerification<'a> {
         // Instruction inspection to unpack successful signature verifications
         let current_index = load_current_index_checked(instructions_sysvar)
             .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        // The offsets of the signature verification refer to the data of the top level
+        // instruction. Make sure that is what we are processing, and that we have not
+        // been invoked with other data from within that instruction.
+        let current_ix = get_instruction_relative(0, instructions_sysvar)
+            .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        if current_ix.data != instruction_data {
+            msg!("Instruction data does not match the verified top level instruction");
+            return Err(SlashingError::InvalidSignatureVerification);
+        }
         let sigverify_ix = get_instruction_relative(relative_index, instructions_sysvar)
             .map_err(|_| SlashingError::MissingSignatureVerification)?;
         if sigverify_ix.program_id != ed25519_program::id() {
-- 
2.43.0


From 45fd4b6ef37a80c13ba07039fd678cad159b7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 03/11] fix: ignore bytes following the shred when comparing
 payloads

Bytes past the merkle proof are not covered by the leader's signature.
Appending some to a shred must not turn it into a conflicting one.
---
 program/src/shred.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/program/src/shred.rs b/program/src/shred.rs
index 90230fe..d780dd8 100644
--- a/program/src/shred.rs
+++ b/program/src/shred.rs
@@ -329,7 +329,9 @@ impl<'a> Shred<'a> {
 
     /// Returns true if the other shred has the same (slot, index,
     /// shred-type), but different payload.
-    /// Retransmitter's signature is ignored when comparing payloads.
+    /// Retransmitter's signature and any bytes following the shred, neither of
+    /// which are covered by the leader's signature, are ignored when comparing
+    /// payloads.
     pub(crate) fn is_shred_duplicate(&self, other: &Shred) -> bool {
         if (self.slot(), self.index(), self.shred_type())
             != (other.slot(), other.index(), other.shred_type())
@@ -340,9 +342,6 @@ impl<'a> Shred<'a> {
             let Ok((proof_offset, proof_size)) = shred.get_proof_offset_and_size() else {
                 return shred.payload;
             };
-            if !shred.resigned {
-                return shred.payload;
-            }
             let Some(offset) = proof_offset.checked_add(proof_size) else {
                 return shred.payload;
             };
-- 
2.43.0


From b865db805bf19f6e51887d1d4ef32b2edb72717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 04/11] fix: return errors for out of range offsets and short
 accounts

An offset past the end of the proof account, or closing an account owned
by the program that is too short to be a report, panicked.
---
 program/src/processor.rs | 5 ++++-
 program/src/state.rs     | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index 4958895..581b032 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -82,7 +82,10 @@ pub fn process_instruction(
         SlashingInstruction::DuplicateBlockProof => {
             let accounts = SlashingAccounts::new(account_info_iter)?;
             let data = decode_instruction_data::<DuplicateBlockProofInstructionData>(input)?;
-            let proof_data = &accounts.proof_account.try_borrow_data()?[data.offset()?..];
+            let proof_account_data = accounts.proof_account.try_borrow_data()?;
+            let proof_data = proof_account_data
+                .get(data.offset()?..)
+                .ok_or(SlashingError::ProofBufferTooSmall)?;
             let violation_report = ViolationReport {
                 version: ViolationReport::VERSION,
                 reporter: data.reporter,
diff --git a/program/src/state.rs b/program/src/state.rs
index 12a889e..17c1eab 100644
--- a/program/src/state.rs
+++ b/program/src/state.rs
@@ -318,8 +318,11 @@ pub(crate) fn close_violation_report<'a, 'b>(
     destination_account: &'a AccountInfo<'b>,
 ) -> Result<(), ProgramError> {
     let report_data = report_account.try_borrow_data()?;
-    let report: &ViolationReport =
-        pod_from_bytes(&report_data[0..std::mem::size_of::<ViolationReport>()])?;
+    let report: &ViolationReport = pod_from_bytes(
+        report_data
+            .get(0..std::mem::size_of::<ViolationReport>())
+            .ok_or(SlashingError::InvalidViolationReportAcccount)?,
+    )?;
     let destination = report.destination;
 
     if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
-- 
2.43.0


From c8508c6296bb400bc5d5fe7fef6f5cf3a8e50b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 05/11] Let a simulation name the client's configuration and
 arguments (cfg slashing_dst)

---
 clients/cli/src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 250e454..b5a8946 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::arithmetic_side_effects)]
+#![allow(unexpected_cfgs)]
 
 use {
     clap::{ArgMatches, CommandFactory, Parser},
@@ -47,6 +48,12 @@ use cli::*;
 mod output;
 use output::*;
 
+/// What a deterministic simulation of the client needs to name from outside
+#[cfg(slashing_dst)]
+pub mod dst {
+    pub use crate::{cli::Cli, config::Config};
+}
+
 // Scan once every 4 hours
 const DEFAULT_SCAN_INTERVAL_S: u64 = 4 * 60 * 60;
 
-- 
2.43.0


From 70052035ede17ee4906d9744931f7d4e399e293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:01 +0000
Subject: [PATCH 06/11] fix: report malformed shreds of the ledger as errors

A shred too short to carry a signature or a merkle root panicked the client after it had created
the evidence account, which then stayed open, and left the remaining slots unreported.
---
 clients/cli/src/main.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index b5a8946..23a20a3 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -16,6 +16,7 @@ use {
     solana_sdk::{
         account::ReadableAccount,
         clock::Slot,
+        hash::Hash,
         pubkey::Pubkey,
         rent::Rent,
         signature::{Keypair, Signature, Signer, SIGNATURE_BYTES},
@@ -234,6 +235,18 @@ async fn command_attach(
     }
 }
 
+/// The merkle root of a shred from the ledger and the signature of it, or an
+/// error if the shred is malformed
+fn signed_merkle_root(shred: &[u8]) -> Result<(Hash, [u8; SIGNATURE_BYTES]), Error> {
+    let merkle_root = layout::get_merkle_root(shred);
+    let signature = shred
+        .get(..SIGNATURE_BYTES)
+        .and_then(|bytes| bytes.try_into().ok());
+    merkle_root
+        .zip(signature)
+        .ok_or_else(|| Error::from("Duplicate proof contains a malformed shred"))
+}
+
 async fn report_duplicate_block_violation(
     config: &Config,
     blockstore: &Blockstore,
@@ -267,12 +280,15 @@ async fn report_duplicate_block_violation(
         }
     }
 
-    // Write the proof on chain
-    let proof_account = Arc::new(Keypair::new());
-    closable_proof_accounts.push(proof_account.clone());
     let proof = blockstore.get_duplicate_slot(slot).ok_or(Error::from(
         "Unable to fetch duplicate proof from blockstore",
     ))?;
+    let (shred_1_merkle_root, shred_1_signature) = signed_merkle_root(proof.shred1.as_ref())?;
+    let (shred_2_merkle_root, shred_2_signature) = signed_merkle_root(proof.shred2.as_ref())?;
+
+    // Write the proof on chain
+    let proof_account = Arc::new(Keypair::new());
+    closable_proof_accounts.push(proof_account.clone());
     let duplicate_proof = DuplicateBlockProofData {
         shred1: proof.shred1.as_ref(),
         shred2: proof.shred2.as_ref(),
@@ -289,11 +305,6 @@ async fn report_duplicate_block_violation(
 
     // Submit the violation to the slashing program
     let payer = config.fee_payer()?;
-    let shred_1_merkle_root = layout::get_merkle_root(proof.shred1.as_ref()).unwrap();
-    let shred_2_merkle_root = layout::get_merkle_root(proof.shred2.as_ref()).unwrap();
-    let shred_1_signature = proof.shred1.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
-    let shred_2_signature = proof.shred2.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
-
     let instruction_data = DuplicateBlockProofInstructionData {
         offset: PodU64::from(RecordData::WRITABLE_START_INDEX as u64),
         slot: PodU64::from(slot),
-- 
2.43.0


From b434818a4a1d697212b3e217a1d7d148c3fee9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:37 +0000
Subject: [PATCH 07/11] fix: close the remaining proof accounts when closing
 one fails

An error while closing one proof account left all others open and ended a continuous watch.
---
 clients/cli/src/main.rs | 42 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 23a20a3..aab024a 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -120,7 +120,7 @@ async fn command_attach(
 ) -> CommandResult {
     let rent =
         bincode::deserialize(&config.rpc_client.get_account_data(&Rent::id()).await?).unwrap();
-    let payer = config.fee_payer()?;
+    config.fee_payer()?;
     let reporter = get_pubkey_from_source!(command_config, matches, wallet_manager, reporter)?
         .map_or_else(
             || {
@@ -204,19 +204,17 @@ async fn command_attach(
 
         // Close any proof accounts, regardless of whether the report was successful
         for proof_account in closable_proof_accounts {
-            let close_ix = spl_record::instruction::close_account(
-                &proof_account.pubkey(),
-                &payer.pubkey(),
-                &payer.pubkey(),
-            );
-            let transaction = Transaction::new_signed_with_payer(
-                &[close_ix],
-                Some(&payer.pubkey()),
-                &[payer.as_ref()],
-                config.rpc_client.get_latest_blockhash().await?,
-            );
-            if process_transaction(config, transaction).await?.is_some() {
-                println_display(config, "Closed proof account".to_string());
+            match close_proof_account(config, &proof_account).await {
+                Ok(true) => println_display(config, "Closed proof account".to_string()),
+                Ok(false) => (),
+                Err(e) => eprintln_display(
+                    config,
+                    format!(
+                        "Failed to close proof account {}: {:?}",
+                        proof_account.pubkey(),
+                        e
+                    ),
+                ),
             }
         }
 
@@ -559,6 +557,22 @@ async fn initialize_and_write_proof(
     Ok(())
 }
 
+async fn close_proof_account(config: &Config, proof_account: &Keypair) -> Result<bool, Error> {
+    let payer = config.fee_payer()?;
+    let close_ix = spl_record::instruction::close_account(
+        &proof_account.pubkey(),
+        &payer.pubkey(),
+        &payer.pubkey(),
+    );
+    let transaction = Transaction::new_signed_with_payer(
+        &[close_ix],
+        Some(&payer.pubkey()),
+        &[payer.as_ref()],
+        config.rpc_client.get_latest_blockhash().await?,
+    );
+    Ok(process_transaction(config, transaction).await?.is_some())
+}
+
 async fn process_transaction(
     config: &Config,
     transaction: Transaction,
-- 
2.43.0


From 9ec97ba180f6a9a3e976227d4c43b99225a8e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 08/11] fix: skip accounts of the slashing program that are not
 reports

Anyone can assign a short or zeroed account to the program. Close and display panicked on the
former and took the latter for a report.
---
 clients/cli/src/main.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index aab024a..1f89ba1 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -339,6 +339,14 @@ async fn report_duplicate_block_violation(
     Ok(true)
 }
 
+/// The violation report in an account of the slashing program. Anyone can
+/// assign empty or zeroed accounts to the program, these are not reports
+fn parse_report(account_data: &[u8]) -> Option<&ViolationReport> {
+    let header = account_data.get(..std::mem::size_of::<ViolationReport>())?;
+    let report: &ViolationReport = pod_from_bytes(header).ok()?;
+    (report.version > 0).then_some(report)
+}
+
 /// Close a violation report
 /// If `report_account` is specified we close the report account, otherwise we
 /// close any eligible accounts filtered by `reporter`, `destination`, or
@@ -391,8 +399,9 @@ async fn command_close(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = parse_report(report_account.data()) else {
+            continue;
+        };
         if report.epoch() + 3 > epoch {
             early_reports += 1;
             continue;
@@ -471,8 +480,9 @@ async fn command_display(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = parse_report(report_account.data()) else {
+            continue;
+        };
         if ignore_filter(report) {
             continue;
         }
-- 
2.43.0


From dd9a7bbc9853ef2ef4f01e6cdb4567d222443686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:46 +0000
Subject: [PATCH 09/11] fix: display reports whose shreds cannot be decoded

The program accepts shreds that the validator's decoder refuses. One such report made the verbose
display of all reports panic.
---
 clients/cli/src/output.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/clients/cli/src/output.rs b/clients/cli/src/output.rs
index 4823b78..76d6c1e 100644
--- a/clients/cli/src/output.rs
+++ b/clients/cli/src/output.rs
@@ -185,8 +185,13 @@ impl ViolationReportOutput {
     }
 
     fn display_duplicate_block_proof(w: &mut dyn Write, proof: DuplicateSlotProof) -> Result {
-        let shred1 = Shred::new_from_serialized_shred(proof.shred1).unwrap();
-        let shred2 = Shred::new_from_serialized_shred(proof.shred2).unwrap();
+        let (shred1, shred2) = match (
+            Shred::new_from_serialized_shred(proof.shred1),
+            Shred::new_from_serialized_shred(proof.shred2),
+        ) {
+            (Ok(shred1), Ok(shred2)) => (shred1, shred2),
+            (Err(e), _) | (_, Err(e)) => return writeln!(w, "    Unable to decode shreds: {e}"),
+        };
 
         for (i, shred) in [&shred1, &shred2].iter().enumerate() {
             writeln!(
@@ -224,8 +229,10 @@ impl VerboseDisplay for ViolationReportOutput {
         self.write_common(w)?;
         match self.violation_type {
             ProofType::DuplicateBlockProof => {
-                let duplicate_proof: DuplicateBlockProofData =
-                    DuplicateBlockProofData::unpack_proof(&self.proof).unwrap();
+                let duplicate_proof = match DuplicateBlockProofData::unpack_proof(&self.proof) {
+                    Ok(duplicate_proof) => duplicate_proof,
+                    Err(e) => return writeln!(w, "    Unable to unpack proof: {e}"),
+                };
                 let duplicate_slot_proof = DuplicateSlotProof {
                     shred1: Payload::Unique(Vec::from(duplicate_proof.shred1)),
                     shred2: Payload::Unique(Vec::from(duplicate_proof.shred2)),
-- 
2.43.0


From 28a38b53a103d415dee5af6786a38f221bca5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:04 +0000
Subject: [PATCH 10/11] fix: close the remaining reports when closing one fails

A report that somebody else closed in the meantime, or whose destination cannot be credited, kept
all matching reports after it from being closed.
---
 clients/cli/src/main.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 1f89ba1..f241d24 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -366,7 +366,7 @@ async fn command_close(
         get_pubkey_from_source!(command_config, matches, wallet_manager, reporter)?;
     let destination_pubkey =
         get_pubkey_from_source!(command_config, matches, wallet_manager, destination)?;
-    let payer = config.fee_payer()?;
+    config.fee_payer()?;
 
     let ignore_filter = |account_pubkey: Pubkey, report: &ViolationReport| {
         report_account
@@ -411,14 +411,13 @@ async fn command_close(
         }
         let lamports = report_account.lamports;
 
-        let close_ix = close_violation_report(&pubkey, &report.destination);
-        let transaction = Transaction::new_signed_with_payer(
-            &[close_ix],
-            Some(&payer.pubkey()),
-            &[payer.as_ref()],
-            config.rpc_client.get_latest_blockhash().await?,
-        );
-        let signature = process_transaction(config, transaction).await?;
+        let signature = match close_report(config, &pubkey, &report.destination).await {
+            Ok(signature) => signature,
+            Err(e) => {
+                eprintln!("Failed to close report account {pubkey}: {e:?}");
+                continue;
+            }
+        };
 
         displays.push(CloseReportOutput {
             report_account: pubkey,
@@ -437,6 +436,22 @@ async fn command_close(
     ))
 }
 
+async fn close_report(
+    config: &Config,
+    report_account: &Pubkey,
+    destination: &Pubkey,
+) -> Result<Option<Signature>, Error> {
+    let payer = config.fee_payer()?;
+    let close_ix = close_violation_report(report_account, destination);
+    let transaction = Transaction::new_signed_with_payer(
+        &[close_ix],
+        Some(&payer.pubkey()),
+        &[payer.as_ref()],
+        config.rpc_client.get_latest_blockhash().await?,
+    );
+    process_transaction(config, transaction).await
+}
+
 /// Display violation reports
 /// If specified, we filter by `epoch`, `node_pubkey`, and `reporter`
 /// If verbose is specified we additionally deserialize the raw proof
-- 
2.43.0


From ec170d3ade71548fa1967e05415f02deb1312f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:04 +0000
Subject: [PATCH 11/11] fix: separate the arguments of the suggested retry
 command

---
 clients/cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index f241d24..355834b 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -196,7 +196,7 @@ async fn command_attach(
                 Ok(true) => reported_violations += 1,
                 Err(e) => eprintln_display(config, format!("
                 Failed to submit duplicate block report for slot {slot}: {:?}, please run the following command to reattempt the report submission:
-                  spl-slashing attach -l <LEDGER> --start-slot {slot}--end-slot {slot}", e)),
+                  spl-slashing attach -l <LEDGER> --start-slot {slot} --end-slot {slot}", e)),
                 _ => (),
             }
             starting_slot = slot + 1;
-- 
2.43.0

