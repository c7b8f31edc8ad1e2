From 37353b6e6707f4510daa3a55e6330f1c9142aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 01/30] fix: v2 decode rejects a duplicate input count, in
 either count order

The duplicate check for PSBT_GLOBAL_INPUT_COUNT tested the output count: a
repeated input count was accepted (last one wins) and a valid global map with
the output count first was rejected as a duplicate.
---
 src/v2/map/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index adbb5c9..ae40e8d 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -216,7 +216,7 @@ impl Global {
                     },
                 PSBT_GLOBAL_INPUT_COUNT => {
                     if pair.key.key.is_empty() {
-                        if output_count.is_none() {
+                        if input_count.is_none() {
                             // TODO: Do we need to check the length for a VarInt?
                             // let vlen: usize = pair.value.len();
                             let mut decoder = Cursor::new(pair.value);
-- 
2.43.0


From cfd8b122d195513f3601f2369cf2341d154e1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 02/30] fix: v2 deserialize does not allocate from untrusted
 map counts

A few bytes of input claiming 2^40 inputs made `Psbt::deserialize` abort the
process (allocation failure or capacity overflow) instead of returning an error.
---
 src/v2/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index be34b9a..5792803 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -630,7 +630,8 @@ impl Psbt {
 
         let inputs: Vec<Input> = {
             let inputs_len: usize = global.input_count;
-            let mut inputs: Vec<Input> = Vec::with_capacity(inputs_len);
+            // The count comes from the (untrusted) global map, do not allocate based on it.
+            let mut inputs: Vec<Input> = Vec::new();
 
             for _ in 0..inputs_len {
                 inputs.push(Input::decode(&mut d)?);
@@ -641,7 +642,8 @@ impl Psbt {
 
         let outputs: Vec<Output> = {
             let outputs_len: usize = global.output_count;
-            let mut outputs: Vec<Output> = Vec::with_capacity(outputs_len);
+            // The count comes from the (untrusted) global map, do not allocate based on it.
+            let mut outputs: Vec<Output> = Vec::new();
 
             for _ in 0..outputs_len {
                 outputs.push(Output::decode(&mut d)?)
-- 
2.43.0


From ab665124bac21dda1b2f7c87f9665b2196df7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 03/30] fix: combining conflicting xpub key sources errors
 instead of panicking

The length of the other derivation path was not checked before slicing it:
a shorter path that is no suffix of ours panicked (subtraction overflow), and
two equal paths with different fingerprints were combined instead of being
reported as inconsistent.
---
 src/v0/bitcoin/mod.rs | 5 +++--
 src/v2/map/global.rs  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index e99cf49..8c5770b 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -259,8 +259,9 @@ impl Psbt {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation1.len() > derivation2.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index ae40e8d..aac520b 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -432,8 +432,9 @@ impl Global {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation1.len() > derivation2.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From 5b67e461b041a4d00473e343c9fcb3b6ef4d5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 04/30] fix: v2 unsigned transaction uses the final sequence
 number by default

BIP-370: an omitted PSBT_IN_SEQUENCE is assumed to be 0xffffffff. The signer
committed to sequence 0 while the extractor used 0xffffffff, so every signature
over an input without a sequence was invalid in the extracted transaction.
---
 src/v2/map/input.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f1d6a86..1f637f7 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -306,8 +306,8 @@ impl Input {
         TxIn {
             previous_output: self.out_point(),
             script_sig: ScriptBuf::default(),
-            // TODO: Check this ZERO is correct.
-            sequence: self.sequence.unwrap_or(Sequence::ZERO),
+            // BIP-370: If omitted, the sequence number is assumed to be the final sequence number.
+            sequence: self.sequence.unwrap_or(Sequence::MAX),
             witness: Witness::default(),
         }
     }
-- 
2.43.0


From 6e8439da077b732b4167f574d8eaebeac2dba57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 05/30] fix: v2 finalizer keeps the sequence, required lock
 times and unknown fields

Finalizing an input dropped its sequence number and required lock times, which
changes the transaction that the signatures commit to, and dropped unknown and
proprietary fields, which BIP-174 requires to be kept.
---
 src/v2/map/input.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 1f637f7..70ca954 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -227,10 +227,12 @@ impl Input {
             final_script_sig: None,
             final_script_witness: None,
 
+            // These are part of the transaction that was signed.
+            sequence: self.sequence,
+            min_time: self.min_time,
+            min_height: self.min_height,
+
             // Clear everything else.
-            sequence: None,
-            min_time: None,
-            min_height: None,
             partial_sigs: BTreeMap::new(),
             sighash_type: None,
             redeem_script: None,
@@ -250,8 +252,10 @@ impl Input {
             sp_ecdh_shares: BTreeMap::new(),
             #[cfg(feature = "silent-payments")]
             sp_dleq_proofs: BTreeMap::new(),
-            proprietaries: BTreeMap::new(),
-            unknowns: BTreeMap::new(),
+
+            // BIP-174: All other data except the UTXO and unknown fields should be cleared.
+            proprietaries: self.proprietaries.clone(),
+            unknowns: self.unknowns.clone(),
         };
 
         // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
-- 
2.43.0


From 35fb83b0f7f172496786a02cd9d35701a5157acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 06/30] fix: v2 finalizer sets the final witness when funded by
 a non-witness UTXO

Inputs without a `witness_utxo` were never given a `final_script_witness`, so
`is_finalized` never held: finalizing a legacy input (or a segwit input funded by
its full previous transaction) hit a debug assertion or panicked on unwrapping
the missing witness, and could not be extracted.
---
 src/v2/map/input.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 70ca954..b566bfc 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -260,16 +260,12 @@ impl Input {
 
         // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
         // Is there an infallible way to do this?
-        if self.witness_utxo.is_some() {
-            if final_script_witness.is_empty() {
-                return Err(FinalizeError::EmptyWitness);
-            }
-            ret.final_script_sig = Some(final_script_sig);
-            ret.final_script_witness = Some(final_script_witness);
-        } else {
-            // TODO: Any checks should do here?
-            ret.final_script_sig = Some(final_script_sig);
+        if self.witness_utxo.is_some() && final_script_witness.is_empty() {
+            return Err(FinalizeError::EmptyWitness);
         }
+        // A finalized input has both fields set, the witness is empty for a legacy input.
+        ret.final_script_sig = Some(final_script_sig);
+        ret.final_script_witness = Some(final_script_witness);
 
         Ok(ret)
     }
-- 
2.43.0


From e08b9824c9ae9fb60dc2bef4679d7469a533ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 07/30] fix: v2 signer without a key neither panics nor clears
 the modifiable flags

With no key for an input whose sighash could not be computed signing panicked
instead of leaving the input alone, and with no key at all the modifiable flags
were still cleared although no signature had been added.
---
 src/v2/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 5792803..553398e 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -781,10 +781,10 @@ impl Psbt {
         K: GetKey,
     {
         let msg_sighash_ty_res = self.sighash_ecdsa(input_index, cache);
-        let sighash_ty = msg_sighash_ty_res.clone().ok().map(|(_msg, sighash_ty)| sighash_ty);
 
         let input = &mut self.inputs[input_index]; // Index checked in call to `sighash_ecdsa`.
         let mut used = vec![]; // List of pubkeys used to sign the input.
+        let mut used_sighash_ty = None; // The sighash type used, if we added a signature.
 
         for (pk, key_source) in input.bip32_derivations.iter() {
             let sk = if let Ok(Some(sk)) = k.get_key(KeyRequest::Bip32(key_source.clone()), secp) {
@@ -810,10 +810,13 @@ impl Psbt {
 
             input.partial_sigs.insert(pk, sig);
             used.push(pk);
+            used_sighash_ty = Some(sighash_ty);
         }
 
-        let ty = sighash_ty.expect("at this stage we know its ok");
-        self.clear_tx_modifiable(ty as u8);
+        // The flags only change if we added a signature.
+        if let Some(ty) = used_sighash_ty {
+            self.clear_tx_modifiable(ty as u8);
+        }
 
         Ok(used)
     }
-- 
2.43.0


From fe1e68a09b669467c2df0a4e3c76daafb20d31d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 08/30] fix: combining keeps the non-witness UTXO when the
 witness UTXO arrives later

A.combine(B) dropped A's non_witness_utxo when B contributed the witness_utxo,
while B.combine(A) kept both: data was lost and the result depended on the order,
although combine is documented (and required by BIP-174) to be commutative.
---
 src/v0/bitcoin/map/input.rs | 6 +-----
 src/v2/map/input.rs         | 7 +------
 2 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index e442ac8..f70e346 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -305,11 +305,7 @@ impl Input {
     /// Combines this [`Input`] with `other` `Input` (as described by BIP 174).
     pub fn combine(&mut self, other: Self) {
         combine!(non_witness_utxo, self, other);
-
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
+        combine!(witness_utxo, self, other);
 
         self.partial_sigs.extend(other.partial_sigs);
         self.bip32_derivation.extend(other.bip32_derivation);
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index b566bfc..ff60b2d 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -621,12 +621,7 @@ impl Input {
         v2_combine_option!(min_time, self, other);
         v2_combine_option!(min_height, self, other);
         v2_combine_option!(non_witness_utxo, self, other);
-
-        // TODO: Copied from v0, confirm this is correct.
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
+        v2_combine_option!(witness_utxo, self, other);
 
         v2_combine_map!(partial_sigs, self, other);
         // TODO: Why do we not combine sighash_type?
-- 
2.43.0


From 902717b0e600dd2c38e1dcdfe3579e54c7a57622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 09/30] fix: combining keeps the sighash type of the other PSBT

The sighash_type field was never combined, so a sighash type set by only one
of the parties was silently lost, depending on who combined with whom.
---
 src/v0/bitcoin/map/input.rs | 1 +
 src/v2/map/input.rs         | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index f70e346..a236969 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -306,6 +306,7 @@ impl Input {
     pub fn combine(&mut self, other: Self) {
         combine!(non_witness_utxo, self, other);
         combine!(witness_utxo, self, other);
+        combine!(sighash_type, self, other);
 
         self.partial_sigs.extend(other.partial_sigs);
         self.bip32_derivation.extend(other.bip32_derivation);
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index ff60b2d..f86bdde 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -624,7 +624,7 @@ impl Input {
         v2_combine_option!(witness_utxo, self, other);
 
         v2_combine_map!(partial_sigs, self, other);
-        // TODO: Why do we not combine sighash_type?
+        v2_combine_option!(sighash_type, self, other);
         v2_combine_option!(redeem_script, self, other);
         v2_combine_option!(witness_script, self, other);
         v2_combine_map!(bip32_derivations, self, other);
-- 
2.43.0


From a50046d3b9a30ff5d1b7d3f769b597ef0e2422e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 10/30] fix: v2 combining keeps the fallback lock time and the
 modifiable flags in step

Both fields of the other PSBT were ignored: a signed PSBT combined into an
unsigned one was still marked modifiable, so another constructor could go on and
invalidate the signatures, and a missing fallback lock time was not filled in.
---
 src/v2/map/global.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index aac520b..dcb0d51 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -408,6 +408,15 @@ impl Global {
         // BIP 174: The Combiner must remove any duplicate key-value pairs, in accordance with
         //          the specification. It can pick arbitrarily when conflicts occur.
 
+        v2_combine_option!(fallback_lock_time, self, other);
+
+        // A part is only modifiable if neither of the PSBTs has been closed for modification, e.g.
+        // by adding a signature. All other flags (e.g. "has sighash single") are set once required.
+        const MODIFIABLE: u8 = INPUTS_MODIFIABLE | OUTPUTS_MODIFIABLE;
+        self.tx_modifiable_flags =
+            (self.tx_modifiable_flags & other.tx_modifiable_flags & MODIFIABLE)
+                | ((self.tx_modifiable_flags | other.tx_modifiable_flags) & !MODIFIABLE);
+
         // Merging xpubs
         for (xpub, (fingerprint1, derivation1)) in other.xpubs {
             match self.xpubs.entry(xpub) {
-- 
2.43.0


From e8681f5bc8bed37f0212f5e01d9098a5306dca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 11/30] fix: v2 combining refuses PSBTs that describe different
 transactions

Surplus inputs and outputs of the other PSBT were silently dropped and a
different lock time was silently ignored. BIP-370 identifies a PSBT by the txid
of its unsigned transaction, which has to be the same on both sides.
---
 src/v2/mod.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 553398e..4c27461 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -675,6 +675,26 @@ impl Psbt {
     ///
     /// See [`combine()`] for a non-consuming version of this function.
     pub fn combine_with(mut self, other: Self) -> Result<Psbt, CombineError> {
+        // BIP-370: PSBTs are the same if they have the same unique identification, this fails if
+        // the lock time can not be determined so check the number of inputs and outputs as well.
+        let same_counts =
+            self.inputs.len() == other.inputs.len() && self.outputs.len() == other.outputs.len();
+        let same_id = match (self.id(), other.id()) {
+            (Ok(this), Ok(that)) => this == that,
+            _ => true,
+        };
+        if !same_counts || !same_id {
+            // Prefer the more specific errors.
+            self.combine_maps(other)?;
+            return Err(CombineError::DifferentTransactions);
+        }
+
+        self.combine_maps(other)?;
+        Ok(self)
+    }
+
+    /// Combines all the maps of `self` with those of `other`.
+    fn combine_maps(&mut self, other: Self) -> Result<(), CombineError> {
         self.global.combine(other.global)?;
 
         for (self_input, other_input) in self.inputs.iter_mut().zip(other.inputs.into_iter()) {
@@ -685,7 +705,7 @@ impl Psbt {
             self_output.combine(other_output)?;
         }
 
-        Ok(self)
+        Ok(())
     }
 
     /// Sets the PSBT_GLOBAL_TX_MODIFIABLE as required after signing.
@@ -1328,6 +1348,8 @@ pub enum CombineError {
     Input(input::CombineError),
     /// Error while combining the output maps.
     Output(output::CombineError),
+    /// The PSBTs do not describe the same transaction.
+    DifferentTransactions,
 }
 
 impl fmt::Display for CombineError {
@@ -1338,6 +1360,7 @@ impl fmt::Display for CombineError {
             Global(ref e) => write_err!(f, "error while combining the global maps"; e),
             Input(ref e) => write_err!(f, "error while combining the input maps"; e),
             Output(ref e) => write_err!(f, "error while combining the output maps"; e),
+            DifferentTransactions => write!(f, "combine two PSBTs with different transactions"),
         }
     }
 }
@@ -1351,6 +1374,7 @@ impl std::error::Error for CombineError {
             Global(ref e) => Some(e),
             Input(ref e) => Some(e),
             Output(ref e) => Some(e),
+            DifferentTransactions => None,
         }
     }
 }
-- 
2.43.0


From d24d9d15a897f6a75118e4b21fb299749d36c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 12/30] fix: a set of xprivs provides keys for its own
 fingerprint, not the parent's

`GetKey` for sets compared the requested master fingerprint with the fingerprint
of the parent of each key, which is zero for a master key: such a set never
signed anything (and a set of derived keys signed with the wrong keys).
---
 src/v0/bitcoin/mod.rs | 2 +-
 src/v2/mod.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 8c5770b..7ea7f8d 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -811,7 +811,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 4c27461..edcfa05 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -1098,7 +1098,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
-- 
2.43.0


From 37a9dc7baf9593bf4b916f2df8d1a5fed3e38b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 13/30] fix: v2 decode tracks which required fields are present

The required fields of inputs and outputs were considered missing if they had a
placeholder value: a PSBT with a zero amount (e.g. OP_RETURN) output could be
created and serialized but never read back, duplicate keys were accepted after
such a value, and so was key data for these keys.
---
 src/v2/map/input.rs  | 52 ++++++++++++++++++++++++--------------------
 src/v2/map/output.rs | 52 ++++++++++++++++++++++++--------------------
 2 files changed, 57 insertions(+), 47 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f86bdde..427bb66 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -393,24 +393,27 @@ impl Input {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Input`.
-        let invalid = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
-        let mut rv = Self::new(&invalid);
+        let mut previous_txid: Option<Txid> = None;
+        let mut spent_output_index: Option<u32> = None;
+
+        // Placeholder values, the required fields are set once we know that we have them.
+        let placeholder = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
+        let mut rv = Self::new(&placeholder);
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => match pair.key.type_value {
+                    PSBT_IN_PREVIOUS_TXID => insert_required(&mut previous_txid, pair)?,
+                    PSBT_IN_OUTPUT_INDEX => insert_required(&mut spent_output_index, pair)?,
+                    _ => rv.insert_pair(pair)?,
+                },
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.previous_txid == Txid::all_zeros() {
-            return Err(DecodeError::MissingPreviousTxid);
-        }
-        if rv.spent_output_index == u32::MAX {
-            return Err(DecodeError::MissingSpentOutputIndex);
-        }
+        rv.previous_txid = previous_txid.ok_or(DecodeError::MissingPreviousTxid)?;
+        rv.spent_output_index = spent_output_index.ok_or(DecodeError::MissingSpentOutputIndex)?;
 
         #[cfg(feature = "silent-payments")]
         {
@@ -428,20 +431,6 @@ impl Input {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
-            PSBT_IN_PREVIOUS_TXID => {
-                if self.previous_txid != Txid::all_zeros() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let txid: Txid = Deserialize::deserialize(&raw_value)?;
-                self.previous_txid = txid;
-            }
-            PSBT_IN_OUTPUT_INDEX => {
-                if self.spent_output_index != u32::MAX {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let vout: u32 = Deserialize::deserialize(&raw_value)?;
-                self.spent_output_index = vout;
-            }
             PSBT_IN_SEQUENCE => {
                 v2_impl_psbt_insert_pair! {
                     self.sequence <= <raw_key: _>|<raw_value: Sequence>
@@ -782,6 +771,21 @@ impl Map for Input {
     }
 }
 
+/// Inserts a required un-keyed `pair`.
+fn insert_required<T: Deserialize>(
+    field: &mut Option<T>,
+    pair: raw::Pair,
+) -> Result<(), InsertPairError> {
+    if !pair.key.key.is_empty() {
+        return Err(InsertPairError::InvalidKeyDataNotEmpty(pair.key));
+    }
+    if field.is_some() {
+        return Err(InsertPairError::DuplicateKey(pair.key));
+    }
+    *field = Some(Deserialize::deserialize(&pair.value)?);
+    Ok(())
+}
+
 // TODO: This is an exact duplicate of that in v0.
 fn psbt_insert_hash_pair<H>(
     map: &mut BTreeMap<H, Vec<u8>>,
diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index a853e72..e30fb00 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -106,26 +106,32 @@ impl Output {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Output`.
-        let invalid = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
-        let mut rv = Self::new(invalid);
+        let mut amount: Option<Amount> = None;
+        let mut script_pubkey: Option<ScriptBuf> = None;
+
+        // Placeholder values, the required fields are set once we know that we have them.
+        let mut rv =
+            Self::new(TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() });
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => match pair.key.type_value {
+                    PSBT_OUT_AMOUNT => insert_required(&mut amount, pair)?,
+                    PSBT_OUT_SCRIPT => insert_required(&mut script_pubkey, pair)?,
+                    _ => rv.insert_pair(pair)?,
+                },
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.amount == Amount::ZERO {
-            return Err(DecodeError::MissingValue);
-        }
+        rv.amount = amount.ok_or(DecodeError::MissingValue)?;
         // BIP-375 allows outputs to be missing scriptPubkey
         #[cfg(not(feature = "silent-payments"))]
-        if rv.script_pubkey == ScriptBuf::default() {
+        if script_pubkey.is_none() {
             return Err(DecodeError::MissingScriptPubkey);
         }
+        rv.script_pubkey = script_pubkey.unwrap_or_default();
 
         #[cfg(feature = "silent-payments")]
         if rv.sp_v0_label.is_some() && rv.sp_v0_info.is_none() {
@@ -139,21 +145,6 @@ impl Output {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
-            PSBT_OUT_AMOUNT => {
-                if self.amount != Amount::ZERO {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let amount: Amount = Deserialize::deserialize(&raw_value)?;
-                self.amount = amount;
-            }
-            PSBT_OUT_SCRIPT => {
-                if self.script_pubkey != ScriptBuf::default() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let script: ScriptBuf = Deserialize::deserialize(&raw_value)?;
-                self.script_pubkey = script;
-            }
-
             PSBT_OUT_REDEEM_SCRIPT => {
                 v2_impl_psbt_insert_pair! {
                     self.redeem_script <= <raw_key: _>|<raw_value: ScriptBuf>
@@ -331,6 +322,21 @@ impl Map for Output {
     }
 }
 
+/// Inserts a required un-keyed `pair`.
+fn insert_required<T: Deserialize>(
+    field: &mut Option<T>,
+    pair: raw::Pair,
+) -> Result<(), InsertPairError> {
+    if !pair.key.key.is_empty() {
+        return Err(InsertPairError::InvalidKeyDataNotEmpty(pair.key));
+    }
+    if field.is_some() {
+        return Err(InsertPairError::DuplicateKey(pair.key));
+    }
+    *field = Some(Deserialize::deserialize(&pair.value)?);
+    Ok(())
+}
+
 /// Enables building an [`Output`] using the standard builder pattern.
 // This is only provided for uniformity with the `InputBuilder`.
 pub struct OutputBuilder(Output);
-- 
2.43.0


From 1318b479c555660d68945cc39a856638a9cea04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 14/30] fix: proprietary key data longer than 1024 bytes
 survives decoding

Decoding a proprietary key stopped after 1024 bytes of key data: from a stream
the key was silently truncated, and a PSBT with such a key could be serialized
but not be read back. Use the limit that applies to any other PSBT key.
---
 src/raw.rs            | 5 ++---
 src/v0/bitcoin/raw.rs | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/raw.rs b/src/raw.rs
index a111a8d..834c613 100644
--- a/src/raw.rs
+++ b/src/raw.rs
@@ -200,10 +200,9 @@ where
         let prefix = Vec::<u8>::consensus_decode(r)?;
         let subtype = Subtype::from(r.read_u8()?);
 
-        // The limit is a DOS protection mechanism the exact value is not
-        // important, 1024 bytes is bigger than any key should be.
+        // The limit is a DOS protection mechanism, the same as the one used to decode a `Key`.
         let mut key = vec![];
-        let _ = r.read_to_limit(&mut key, 1024)?;
+        let _ = r.read_to_limit(&mut key, MAX_VEC_SIZE as u64)?;
 
         Ok(ProprietaryKey { prefix, subtype, key })
     }
diff --git a/src/v0/bitcoin/raw.rs b/src/v0/bitcoin/raw.rs
index 126b08d..fa805d7 100644
--- a/src/v0/bitcoin/raw.rs
+++ b/src/v0/bitcoin/raw.rs
@@ -161,10 +161,9 @@ where
         let prefix = Vec::<u8>::consensus_decode(r)?;
         let subtype = Subtype::from(r.read_u8()?);
 
-        // The limit is a DOS protection mechanism the exact value is not
-        // important, 1024 bytes is bigger than any key should be.
+        // The limit is a DOS protection mechanism, the same as the one used to decode a `Key`.
         let mut key = vec![];
-        let _ = r.read_to_limit(&mut key, 1024)?;
+        let _ = r.read_to_limit(&mut key, MAX_VEC_SIZE as u64)?;
 
         Ok(ProprietaryKey { prefix, subtype, key })
     }
-- 
2.43.0


From b5b42aaa9f7031dcd85f0e24397ce27123b5b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 15/30] fix: displaying an ExtractTxError does not panic

---
 src/v2/extract.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/v2/extract.rs b/src/v2/extract.rs
index 657793b..327e5b4 100644
--- a/src/v2/extract.rs
+++ b/src/v2/extract.rs
@@ -223,12 +223,26 @@ pub enum ExtractTxError {
 }
 
 impl fmt::Display for ExtractTxError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => write!(f, "attempted to extract tx from an unfinalized PSBT"),
+            DetermineLockTime(ref e) => write_err!(f, "failed to determine lock time"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for ExtractTxError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use ExtractTxError::*;
+
+        match *self {
+            DetermineLockTime(ref e) => Some(e),
+            Unfinalized => None,
+        }
+    }
 }
 
 impl From<DetermineLockTimeError> for ExtractTxError {
-- 
2.43.0


From aee923a97a8b49ae360f04d141c7a46ad5691c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 16/30] fix: v0 roles do not panic if the spent output is not
 in the non-witness UTXO

Signing, finalizing and extracting a PSBT with a non-witness UTXO that has fewer
outputs than the index being spent panicked. Such a PSBT decodes fine, so any
peer could crash the others; the UTXO is missing, report it as such.
---
 src/v0/bitcoin/mod.rs          | 6 ++++--
 src/v0/miniscript/finalizer.rs | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 7ea7f8d..3f41d84 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -201,7 +201,9 @@ impl Psbt {
                     fee_rate: FeeRate::MAX,
                     tx: self.internal_extract_tx(),
                 }),
-            _ => unreachable!(),
+            // The non-witness UTXO does not have the output that is spent.
+            Err(_) =>
+                return Err(ExtractTxError::MissingInputValue { tx: self.internal_extract_tx() }),
         };
 
         // Note: Move prevents usage of &self from now on.
@@ -623,7 +625,7 @@ impl Psbt {
             witness_utxo
         } else if let Some(non_witness_utxo) = &input.non_witness_utxo {
             let vout = self.unsigned_tx.input[input_index].previous_output.vout;
-            &non_witness_utxo.output[vout as usize]
+            non_witness_utxo.output.get(vout as usize).ok_or(SignError::MissingSpendUtxo)?
         } else {
             return Err(SignError::MissingSpendUtxo);
         };
diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 92d07bc..4e33e93 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -116,7 +116,7 @@ pub(super) fn get_utxo(psbt: &Psbt, index: usize) -> Result<&bitcoin::TxOut, Inp
         witness_utxo
     } else if let Some(ref non_witness_utxo) = inp.non_witness_utxo {
         let vout = psbt.unsigned_tx.input[index].previous_output.vout;
-        &non_witness_utxo.output[vout as usize]
+        non_witness_utxo.output.get(vout as usize).ok_or(InputError::MissingUtxo)?
     } else {
         return Err(InputError::MissingUtxo);
     };
-- 
2.43.0


From c9f5bfd47e2791cc3b673d219482b712c96f51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 17/30] fix: v0 finalize_inp_mall_mut allows malleable
 satisfactions

It passed allow_mall = false, i.e. it was the same as finalize_inp_mut.
---
 src/v0/miniscript/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 5ee82ad..21c197c 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -680,7 +680,7 @@ impl PsbtExt for Psbt {
         if index >= self.inputs.len() {
             return Err(Error::InputIdxOutofBounds { psbt_inp: self.inputs.len(), index });
         }
-        finalizer::finalize_input(self, index, secp, /*allow_mall*/ false)
+        finalizer::finalize_input(self, index, secp, /*allow_mall*/ true)
     }
 
     fn finalize_inp_mall<C: secp256k1::Verification>(
-- 
2.43.0


From 6916c56223040a2495b30a368d691d0cc5fc9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 18/30] fix: v0 finalizer keeps unknown and proprietary fields

BIP-174: "All other data except the UTXO and unknown fields in the input
key-value map should be cleared from the PSBT".
---
 src/v0/miniscript/finalizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 4e33e93..281fbcb 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -445,6 +445,9 @@ pub(super) fn finalize_input<C: secp256k1::Verification>(
         let input = &mut psbt.inputs[index];
         input.non_witness_utxo = original.non_witness_utxo;
         input.witness_utxo = original.witness_utxo;
+        // BIP-174: All other data except the UTXO and unknown fields should be cleared.
+        input.proprietary = original.proprietary;
+        input.unknown = original.unknown;
         input.final_script_sig = if script_sig.is_empty() {
             None
         } else {
-- 
2.43.0


From 7c58233204043358e14d2e1bb6f557028b12aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 19/30] fix: v0 signer checks accept scripts with only a
 non-witness UTXO

Any input with a redeem or witness script was refused with `MissingTxOut` unless
it had a witness UTXO: no legacy P2SH input could ever pass, as these must not
have a witness UTXO.
---
 src/v0/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 070f905..0442ce3 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -72,20 +72,20 @@ impl Psbt {
             }
 
             if let Some(ref redeem_script) = input.redeem_script {
-                match input.witness_utxo {
-                    Some(ref tx_out) => {
+                match self.spend_utxo(i) {
+                    Ok(tx_out) => {
                         let script_pubkey = ScriptBuf::new_p2sh(&redeem_script.script_hash());
                         if tx_out.script_pubkey != script_pubkey {
                             return Err(SignerChecksError::RedeemScriptMismatch);
                         }
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
             if let Some(ref witness_script) = input.witness_script {
-                match input.witness_utxo {
-                    Some(ref utxo) => {
+                match self.spend_utxo(i) {
+                    Ok(utxo) => {
                         let script_pubkey = &utxo.script_pubkey;
                         if script_pubkey.is_p2wsh() {
                             if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
@@ -105,7 +105,7 @@ impl Psbt {
                             // BIP does not specifically say there should not be a witness script here?
                         }
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
-- 
2.43.0


From 7303f0cfd1624b4a907998a8c9948f6f625832b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 20/30] fix: v0 signer checks compare the nested witness script
 with the redeem script

The check compared a P2WSH of the redeem script with the P2SH scriptPubkey, these
never match: every honest P2SH-P2WSH input was refused.
---
 src/v0/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 0442ce3..92c721d 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -95,8 +95,8 @@ impl Psbt {
                             }
                         } else if script_pubkey.is_p2sh() {
                             if let Some(ref redeem_script) = input.redeem_script {
-                                if ScriptBuf::new_p2wsh(&redeem_script.wscript_hash())
-                                    != *script_pubkey
+                                if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
+                                    != *redeem_script
                                 {
                                     return Err(SignerChecksError::WitnessScriptMismatchShWsh);
                                 }
-- 
2.43.0


From 9b2616f8136839e22468971e46fa68d740d970ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 21/30] fix: v0 signer checks refuse a legacy P2SH input with a
 witness UTXO

BIP-174: If a witness UTXO is provided, no non-witness signature may be created.
The redeem script of an `OutputType::Sh` input is no witness program.
---
 src/v0/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 92c721d..bd08288 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -60,6 +60,8 @@ impl Psbt {
             if input.witness_utxo.is_some() {
                 match self.output_type(i) {
                     Ok(OutputType::Bare) => return Err(SignerChecksError::NonWitnessSig),
+                    Ok(OutputType::Sh) if input.redeem_script.is_some() =>
+                        return Err(SignerChecksError::NonWitnessSig),
                     Ok(_) => {}
                     Err(_) => {} // TODO: Is this correct?
                 }
-- 
2.43.0


From 697e195e4c183262d36a86382ad483511c630f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 22/30] fix: v2 finalizer checks time locks against the
 transaction's lock time and sequence

---
 src/v2/map/input.rs           | 13 -------------
 src/v2/miniscript/finalize.rs |  6 +++++-
 src/v2/miniscript/mod.rs      |  8 +++-----
 src/v2/miniscript/satisfy.rs  | 28 ++++++++++++----------------
 4 files changed, 20 insertions(+), 35 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 427bb66..051f6c8 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -270,19 +270,6 @@ impl Input {
         Ok(ret)
     }
 
-    // TODO: Work out if this is in line with bip-370
-    #[cfg(feature = "miniscript")]
-    pub(crate) fn lock_time(&self) -> absolute::LockTime {
-        match (self.min_height, self.min_time) {
-            // If we have both, bip says use height.
-            (Some(height), Some(_)) => height.into(),
-            (Some(height), None) => height.into(),
-            (None, Some(time)) => time.into(),
-            // TODO: Check this is correct.
-            (None, None) => absolute::LockTime::ZERO,
-        }
-    }
-
     pub(crate) fn has_lock_time(&self) -> bool {
         self.min_time.is_some() || self.min_height.is_some()
     }
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index f7c60e3..6ded7e1 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -106,7 +106,11 @@ impl Finalizer {
         let (witness, script_sig) = {
             let spk =
                 &input.funding_utxo().expect("guaranteed by Finalizer invariant").script_pubkey;
-            let sat = InputSatisfier { input };
+            let sat = InputSatisfier {
+                input,
+                tx_version: self.0.global.tx_version,
+                lock_time: self.0.determine_lock_time().expect("guaranteed by Finalizer invariant"),
+            };
 
             if spk.is_p2tr() {
                 // Deal with taproot case separately, we cannot infer the full descriptor for taproot.
diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 7935bd1..6cf786c 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -26,7 +26,7 @@ use core::fmt;
 use bitcoin::consensus::encode::VarInt;
 use bitcoin::secp256k1::{Secp256k1, Verification};
 use bitcoin::sighash::Prevouts;
-use bitcoin::{Script, Sequence, Transaction, TxOut, Witness};
+use bitcoin::{Script, Transaction, TxOut, Witness};
 use miniscript::miniscript::satisfy::Placeholder;
 use miniscript::{interpreter, Interpreter, MiniscriptKey};
 
@@ -88,10 +88,8 @@ impl Psbt {
 
         let spk = &input.funding_utxo().expect("have funding utxo").script_pubkey;
 
-        // TODO: Check that this is correct?
-        let cltv = input.lock_time();
-        // TODO: is this usage of MAX correct?
-        let csv = input.sequence.unwrap_or(Sequence::MAX);
+        let cltv = unsigned_tx.lock_time;
+        let csv = unsigned_tx.input[index].sequence;
 
         let interpreter = Interpreter::from_txdata(spk, script_sig, witness, csv, cltv)
             .map_err(|error| Constructor { input_index: index, error })?;
diff --git a/src/v2/miniscript/satisfy.rs b/src/v2/miniscript/satisfy.rs
index eb56c62..5bbffc5 100644
--- a/src/v2/miniscript/satisfy.rs
+++ b/src/v2/miniscript/satisfy.rs
@@ -3,7 +3,7 @@
 use crate::bitcoin::hashes::{hash160, sha256d, Hash};
 use crate::bitcoin::key::XOnlyPublicKey;
 use crate::bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash};
-use crate::bitcoin::{absolute, ecdsa, relative, ScriptBuf};
+use crate::bitcoin::{absolute, ecdsa, relative, transaction, ScriptBuf};
 use crate::miniscript::{MiniscriptKey, Preimage32, Satisfier, SigType, ToPublicKey};
 use crate::prelude::*;
 use crate::v2::map::input::Input;
@@ -16,6 +16,10 @@ use crate::v2::map::input::Input;
 /// [`Satisfier`]: crate::miniscript::Satisfier
 pub(crate) struct InputSatisfier<'a> {
     pub(crate) input: &'a Input,
+    /// The version of the transaction.
+    pub(crate) tx_version: transaction::Version,
+    /// The lock time of the transaction.
+    pub(crate) lock_time: absolute::LockTime,
 }
 
 impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
@@ -67,25 +71,17 @@ impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
             .map(|(pk, sig)| (*pk, *sig))
     }
 
-    // TODO: Verify this is correct.
+    // BIP-65: The lock time is that of the transaction, and the input must not be final.
     fn check_after(&self, n: absolute::LockTime) -> bool {
-        use absolute::LockTime::*;
-
-        match n {
-            Blocks(height) =>
-                if let Some(lock_time) = self.input.min_height {
-                    return height <= lock_time;
-                },
-            Seconds(time) =>
-                if let Some(lock_time) = self.input.min_time {
-                    return time <= lock_time;
-                },
-        }
-        false
+        self.input.unsigned_tx_in().enables_lock_time() && n.is_implied_by(self.lock_time)
     }
 
-    // TODO: Verify this is correct.
+    // BIP-68: Relative lock times are only supported from transaction version 2.
     fn check_older(&self, n: relative::LockTime) -> bool {
+        if self.tx_version < transaction::Version::TWO {
+            return false;
+        }
+
         match self.input.sequence {
             Some(seq) => match relative::LockTime::from_sequence(seq) {
                 Err(_) => false,
-- 
2.43.0


From d766951e848d6baec482794968a407c068a8968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 23/30] fix: taproot leaf scripts can be read back from JSON

---
 src/serde_utils.rs          | 45 +++++++++++++++++++++++++++++++++++++
 src/v0/bitcoin/map/input.rs |  2 +-
 src/v2/map/input.rs         |  2 +-
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index e92dd82..751e5eb 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -159,6 +159,51 @@ pub mod btreemap_as_seq {
     }
 }
 
+pub mod tap_scripts {
+    //! Module for serialization of taproot leaf scripts keyed by control block.
+    //!
+    //! The format is the one of [`super::btreemap_as_seq`]. Deserialization cannot use `ControlBlock`
+    //! because `secp256k1::Parity` does not deserialize from formats that do not preserve the integer
+    //! width, e.g. JSON.
+    #![allow(missing_docs)]
+
+    use bitcoin::key::{Parity, UntweakedPublicKey};
+    use bitcoin::taproot::{ControlBlock, LeafVersion, TaprootMerkleBranch};
+
+    pub use super::btreemap_as_seq::serialize;
+    use crate::prelude::*;
+    use crate::serde;
+
+    /// Same fields as [`ControlBlock`], with the parity as integer.
+    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Deserialize)]
+    struct RawControlBlock {
+        leaf_version: LeafVersion,
+        output_key_parity: u8,
+        internal_key: UntweakedPublicKey,
+        merkle_branch: TaprootMerkleBranch,
+    }
+
+    pub fn deserialize<'de, D, T>(d: D) -> Result<BTreeMap<ControlBlock, T>, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+        T: serde::Deserialize<'de>,
+    {
+        let raw: BTreeMap<RawControlBlock, T> = super::btreemap_as_seq::deserialize(d)?;
+        raw.into_iter()
+            .map(|(raw, value)| {
+                let control_block = ControlBlock {
+                    leaf_version: raw.leaf_version,
+                    output_key_parity: Parity::from_u8(raw.output_key_parity)
+                        .map_err(serde::de::Error::custom)?,
+                    internal_key: raw.internal_key,
+                    merkle_branch: raw.merkle_branch,
+                };
+                Ok((control_block, value))
+            })
+            .collect()
+    }
+}
+
 pub mod btreemap_as_seq_byte_values {
     //! Module for serialization of BTreeMaps as lists of sequences because
     //! serde_json will not serialize hashmaps with non-string keys be default.
diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index a236969..9c58245 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -121,7 +121,7 @@ pub struct Input {
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
     pub tap_script_sigs: BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>,
     /// Map of Control blocks to Script version pair.
-    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::tap_scripts"))]
     pub tap_scripts: BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 051f6c8..3030317 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -111,7 +111,7 @@ pub struct Input {
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
     pub tap_script_sigs: BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>,
     /// Map of Control blocks to Script version pair.
-    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::tap_scripts"))]
     pub tap_scripts: BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
-- 
2.43.0


From 1716d361929a0dc4579f542e5bb7686645d9485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 24/30] fix: taproot trees can be read back from binary serde
 formats

---
 src/serde_utils.rs           | 40 ++++++++++++++++++++++++++++++++++++
 src/v0/bitcoin/map/output.rs |  1 +
 src/v2/map/output.rs         |  1 +
 3 files changed, 42 insertions(+)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index 751e5eb..ff18bf9 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -159,6 +159,46 @@ pub mod btreemap_as_seq {
     }
 }
 
+pub mod tap_tree {
+    //! Module for serialization of an optional taproot tree.
+    //!
+    //! If not human readable the tree is written as in a PSBT (BIP-371): the serde implementation of
+    //! `bitcoin` writes the depth of a leaf as `usize` but reads it as `u8`.
+    #![allow(missing_docs)]
+
+    use bitcoin::taproot::TapTree;
+
+    use crate::prelude::*;
+    use crate::serde;
+
+    pub fn serialize<S>(v: &Option<TapTree>, s: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        if s.is_human_readable() {
+            serde::Serialize::serialize(v, s)
+        } else {
+            let bytes = v.as_ref().map(crate::serialize::Serialize::serialize);
+            serde::Serialize::serialize(&bytes, s)
+        }
+    }
+
+    pub fn deserialize<'de, D>(d: D) -> Result<Option<TapTree>, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        if d.is_human_readable() {
+            serde::Deserialize::deserialize(d)
+        } else {
+            let bytes: Option<Vec<u8>> = serde::Deserialize::deserialize(d)?;
+            bytes
+                .map(|bytes| crate::serialize::Deserialize::deserialize(&bytes))
+                .transpose()
+                .map_err(serde::de::Error::custom)
+        }
+    }
+}
+
 pub mod tap_scripts {
     //! Module for serialization of taproot leaf scripts keyed by control block.
     //!
diff --git a/src/v0/bitcoin/map/output.rs b/src/v0/bitcoin/map/output.rs
index 97997d8..7d997b5 100644
--- a/src/v0/bitcoin/map/output.rs
+++ b/src/v0/bitcoin/map/output.rs
@@ -46,6 +46,7 @@ pub struct Output {
     /// The internal pubkey.
     pub tap_internal_key: Option<XOnlyPublicKey>,
     /// Taproot Output tree.
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::tap_tree"))]
     pub tap_tree: Option<TapTree>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index e30fb00..1d3d935 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -44,6 +44,7 @@ pub struct Output {
     /// The internal pubkey.
     pub tap_internal_key: Option<XOnlyPublicKey>,
     /// Taproot Output tree.
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::tap_tree"))]
     pub tap_tree: Option<TapTree>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
-- 
2.43.0


From a8812596e0d08e622bd903804b6b8b582c23b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 25/30] fix: displaying a v2 deserialize error does not panic

---
 src/v2/error.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index 60d6533..f3c902d 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -34,12 +34,32 @@ pub enum DeserializeError {
 }
 
 impl fmt::Display for DeserializeError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic => write!(f, "invalid magic"),
+            InvalidSeparator => write!(f, "invalid separator"),
+            NoMorePairs => write!(f, "no more key-value pairs for this psbt map"),
+            DecodeGlobal(ref e) => write_err!(f, "error decoding the global map"; e),
+            DecodeInput(ref e) => write_err!(f, "error decoding an input map"; e),
+            DecodeOutput(ref e) => write_err!(f, "error decoding an output map"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for DeserializeError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use DeserializeError::*;
+
+        match *self {
+            DecodeGlobal(ref e) => Some(e),
+            DecodeInput(ref e) => Some(e),
+            DecodeOutput(ref e) => Some(e),
+            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+        }
+    }
 }
 
 impl From<global::DecodeError> for DeserializeError {
-- 
2.43.0


From f25cb11698d0f2eb10c22a6fee87b2e8c271eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 26/30] fix: v2 finalizer does not print to standard output,
 which may be closed

---
 src/v2/miniscript/finalize.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index 6ded7e1..d66b476 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -130,8 +130,6 @@ impl Finalizer {
         };
 
         let witness = Witness::from_slice(&witness);
-        println!("{:#?}", script_sig);
-        println!("{:#?}", witness);
         Ok((script_sig, witness))
     }
 
-- 
2.43.0


From c62c88dffdaaaa58001103d914615d02a538ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:27 +0000
Subject: [PATCH 27/30] fix: finalizing a tapscript with a public key hash does
 not panic

---
 src/v0/miniscript/finalizer.rs | 34 +++++--------------------
 src/v0/miniscript/mod.rs       | 12 ++++++++-
 src/v0/miniscript/util.rs      | 45 ++++++++++++++++++++++++++++++++--
 src/v2/miniscript/finalize.rs  | 36 +++++----------------------
 src/v2/miniscript/satisfy.rs   |  9 +++++++
 5 files changed, 75 insertions(+), 61 deletions(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 281fbcb..55a987d 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -19,13 +19,12 @@ use bitcoin::taproot::LeafVersion;
 use bitcoin::{PublicKey, Script, ScriptBuf, TxOut, Witness};
 
 use miniscript::{
-    interpreter, BareCtx, Descriptor, ExtParams, Legacy, Miniscript, Satisfier, Segwitv0, SigType,
-    Tap, ToPublicKey,
+    interpreter, BareCtx, Descriptor, ExtParams, Legacy, Miniscript, Satisfier, Segwitv0, Tap,
 };
 
 use crate::prelude::*;
 use crate::v0::miniscript::{sanity_check, Error, InputError, Psbt, PsbtInputSatisfier};
-use crate::v0::miniscript::util::witness_size;
+use crate::v0::miniscript::util::{satisfy_tap, witness_size};
 
 // Satisfy the taproot descriptor. It is not possible to infer the complete
 // descriptor from psbt because the information about all the scripts might not
@@ -36,20 +35,6 @@ fn construct_tap_witness(
     sat: &PsbtInputSatisfier,
     allow_mall: bool,
 ) -> Result<Vec<Vec<u8>>, InputError> {
-    // When miniscript tries to finalize the PSBT, it doesn't have the full descriptor (which contained a pkh() fragment)
-    // and instead resorts to parsing the raw script sig, which is translated into a "expr_raw_pkh" internally.
-    let mut map: BTreeMap<hash160::Hash, bitcoin::key::XOnlyPublicKey> = BTreeMap::new();
-    let psbt_inputs = &sat.psbt.inputs;
-    for psbt_input in psbt_inputs {
-        // We need to satisfy or dissatisfy any given key. `tap_key_origin` is the only field of PSBT Input which consist of
-        // all the keys added on a descriptor and thus we get keys from it.
-        let public_keys = psbt_input.tap_key_origins.keys();
-        for key in public_keys {
-            let bitcoin_key = *key;
-            let hash = bitcoin_key.to_pubkeyhash(SigType::Schnorr);
-            map.insert(hash, bitcoin_key);
-        }
-    }
     assert!(spk.is_p2tr());
 
     // try the key spend path first
@@ -72,19 +57,12 @@ fn construct_tap_witness(
                 script,
                 &ExtParams::allow_all(),
             ) {
-                Ok(ms) => ms.substitute_raw_pkh(&map),
+                Ok(ms) => ms,
                 Err(..) => continue, // try another script
             };
-            let mut wit = if allow_mall {
-                match ms.satisfy_malleable(sat) {
-                    Ok(ms) => ms,
-                    Err(..) => continue,
-                }
-            } else {
-                match ms.satisfy(sat) {
-                    Ok(ms) => ms,
-                    Err(..) => continue,
-                }
+            let mut wit = match satisfy_tap(&ms, sat, allow_mall) {
+                Some(wit) => wit,
+                None => continue,
             };
             wit.push(ms.encode().into_bytes());
             wit.push(control_block.serialize());
diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 21c197c..c14ed04 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -29,7 +29,7 @@ use crate::v0::bitcoin::{raw, Input, Output, Psbt};
 use crate::prelude::*;
 
 mod finalizer;
-mod util;
+pub(crate) mod util;
 
 #[allow(deprecated)]
 pub use self::finalizer::{finalize, finalize_mall, interpreter_check};
@@ -278,6 +278,16 @@ impl<'psbt, Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for PsbtInputSatisfie
             .map(|(pubkey, _)| bitcoin::PublicKey::new(*pubkey))
     }
 
+    // The keys of a tapscript are found in its key origins, in any of the inputs.
+    fn lookup_raw_pkh_x_only_pk(&self, pkh: &hash160::Hash) -> Option<bitcoin::key::XOnlyPublicKey> {
+        self.psbt
+            .inputs
+            .iter()
+            .flat_map(|input| input.tap_key_origins.keys())
+            .find(|key| key.to_pubkeyhash(SigType::Schnorr) == *pkh)
+            .copied()
+    }
+
     fn lookup_tap_control_block_map(
         &self,
     ) -> Option<&BTreeMap<ControlBlock, (bitcoin::ScriptBuf, LeafVersion)>> {
diff --git a/src/v0/miniscript/util.rs b/src/v0/miniscript/util.rs
index 27bd17c..a3c3103 100644
--- a/src/v0/miniscript/util.rs
+++ b/src/v0/miniscript/util.rs
@@ -4,8 +4,49 @@
 
 use crate::prelude::*;
 use bitcoin::consensus::encode::VarInt;
-use miniscript::miniscript::satisfy::Placeholder;
-use miniscript::MiniscriptKey;
+use bitcoin::key::XOnlyPublicKey;
+use miniscript::miniscript::satisfy::{Placeholder, Witness};
+use miniscript::{Miniscript, MiniscriptKey, Satisfier, ScriptContext, Tap};
+
+/// Satisfies a tapscript that was parsed from a raw script.
+///
+/// Parsing turns each `pkh()` fragment into a raw public key hash. To fill these in `rust-miniscript`
+/// looks for full public keys only (and panics if it finds none), tapscripts use x-only public keys.
+pub(crate) fn satisfy_tap<S: Satisfier<XOnlyPublicKey>>(
+    ms: &Miniscript<XOnlyPublicKey, Tap>,
+    sat: &S,
+    allow_mall: bool,
+) -> Option<Vec<Vec<u8>>> {
+    let template =
+        if allow_mall { ms.build_template_mall(sat) } else { ms.build_template(sat) };
+    let template = match template.stack {
+        Witness::Stack(template) => template,
+        Witness::Unavailable | Witness::Impossible => return None,
+    };
+
+    let key_of_sig = template.iter().filter_map(|item| match item {
+        Placeholder::SchnorrSigPkHash(pkh, leaf_hash, _) => sat
+            .lookup_raw_pkh_tap_leaf_script_sig(&(*pkh, *leaf_hash))
+            .map(|(key, _sig)| (*pkh, key)),
+        _ => None,
+    });
+    let keys: BTreeMap<_, _> = key_of_sig.collect();
+
+    let stack: Vec<Vec<u8>> = template
+        .iter()
+        .map(|item| match item {
+            Placeholder::PubkeyHash(pkh, _) => keys
+                .get(pkh)
+                .copied()
+                .or_else(|| sat.lookup_raw_pkh_x_only_pk(pkh))
+                .map(|key| key.serialize().to_vec()),
+            item => item.satisfy_self(sat),
+        })
+        .collect::<Option<_>>()?;
+
+    Tap::check_witness(&stack).ok()?;
+    Some(stack)
+}
 
 // Privately scoped stuff taken from `miniscript::util`, this is duplicated in the v2 module.
 
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index d66b476..d7bdb0a 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -12,12 +12,12 @@ use bitcoin::secp256k1::{Secp256k1, Verification};
 use bitcoin::taproot::LeafVersion;
 use bitcoin::{sighash, Address, Network, Script, ScriptBuf, Txid, Witness, XOnlyPublicKey};
 use miniscript::{
-    interpreter, BareCtx, Descriptor, ExtParams, Legacy, Miniscript, Satisfier, Segwitv0, SigType,
-    Tap, ToPublicKey,
+    interpreter, BareCtx, Descriptor, ExtParams, Legacy, Miniscript, Satisfier, Segwitv0, Tap,
 };
 
 use crate::error::{write_err, FundingUtxoError};
 use crate::prelude::*;
+use crate::v0::miniscript::util::satisfy_tap;
 use crate::v2::map::input::{self, Input};
 use crate::v2::miniscript::satisfy::InputSatisfier;
 use crate::v2::miniscript::InterpreterCheckError;
@@ -306,23 +306,6 @@ fn construct_tap_witness(
     allow_mall: bool,
 ) -> Result<Vec<Vec<u8>>, InputError> {
     assert!(spk.is_p2tr());
-    // When miniscript tries to finalize the PSBT, it doesn't have the full descriptor (which
-    // contained a pkh() fragment) and instead resorts to parsing the raw script sig, which is
-    // translated into a "expr_raw_pkh" internally.
-    let mut map: BTreeMap<hash160::Hash, XOnlyPublicKey> = BTreeMap::new();
-
-    // We need to satisfy or dissatisfy any given key. `tap_key_origin` is the only field of PSBT
-    // Input which consist of all the keys added on a descriptor and thus we get keys from it.
-    let public_keys = sat.input.tap_key_origins.keys();
-    for key in public_keys {
-        // TODO: How is this key converting to a miniscript::interpreter::BitcoinKey?
-        // let hash = key.to_pubkeyhash(SigType::Schnorr);
-        let bitcoin_key = *key;
-        let hash = bitcoin_key.to_pubkeyhash(SigType::Schnorr);
-
-        map.insert(hash, *key);
-    }
-
     // try the key spend path first
     if let Some(sig) = <InputSatisfier as Satisfier<XOnlyPublicKey>>::lookup_tap_key_spend_sig(&sat)
     {
@@ -342,19 +325,12 @@ fn construct_tap_witness(
                 script,
                 &ExtParams::allow_all(),
             ) {
-                Ok(ms) => ms.substitute_raw_pkh(&map),
+                Ok(ms) => ms,
                 Err(..) => continue, // try another script
             };
-            let mut wit = if allow_mall {
-                match ms.satisfy_malleable(&sat) {
-                    Ok(ms) => ms,
-                    Err(..) => continue,
-                }
-            } else {
-                match ms.satisfy(&sat) {
-                    Ok(ms) => ms,
-                    Err(..) => continue,
-                }
+            let mut wit = match satisfy_tap(&ms, &sat, allow_mall) {
+                Some(wit) => wit,
+                None => continue,
             };
             wit.push(ms.encode().into_bytes());
             wit.push(control_block.serialize());
diff --git a/src/v2/miniscript/satisfy.rs b/src/v2/miniscript/satisfy.rs
index 5bbffc5..0fb7c67 100644
--- a/src/v2/miniscript/satisfy.rs
+++ b/src/v2/miniscript/satisfy.rs
@@ -37,6 +37,15 @@ impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
             .map(|(pubkey, _)| bitcoin::PublicKey::new(*pubkey))
     }
 
+    // The keys of a tapscript are found in its key origins.
+    fn lookup_raw_pkh_x_only_pk(&self, pkh: &hash160::Hash) -> Option<XOnlyPublicKey> {
+        self.input
+            .tap_key_origins
+            .keys()
+            .find(|key| key.to_pubkeyhash(SigType::Schnorr) == *pkh)
+            .copied()
+    }
+
     fn lookup_tap_control_block_map(
         &self,
     ) -> Option<&BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>> {
-- 
2.43.0


From 5b17b73787f9a4b500ed03c19d8bb3c9457dacb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 28/30] fix: interpreting a v2 PSBT that is not finalized is an
 error, not a panic

---
 src/v2/miniscript/mod.rs | 46 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 6cf786c..f37ab53 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -26,20 +26,19 @@ use core::fmt;
 use bitcoin::consensus::encode::VarInt;
 use bitcoin::secp256k1::{Secp256k1, Verification};
 use bitcoin::sighash::Prevouts;
-use bitcoin::{Script, Transaction, TxOut, Witness};
+use bitcoin::{Script, ScriptBuf, Transaction, TxOut, Witness};
 use miniscript::miniscript::satisfy::Placeholder;
 use miniscript::{interpreter, Interpreter, MiniscriptKey};
 
-use crate::error::write_err;
+use crate::error::{write_err, FundingUtxoError};
 use crate::prelude::*;
-use crate::v2::map::input::Input;
 use crate::v2::{DetermineLockTimeError, Psbt};
 
 #[rustfmt::skip]                // Keep public exports separate.
 pub use self::finalize::{InputError, Finalizer, FinalizeError, FinalizeInputError};
 
 impl Psbt {
-    // TODO: Should this be on a Role? Finalizer/Extractor? Then we can remove the debug_assert
+    // TODO: Should this be on a Role? Finalizer/Extractor?
     /// Interprets all PSBT inputs and checks whether the script is correctly interpreted according
     /// to the context.
     ///
@@ -49,24 +48,24 @@ impl Psbt {
         &self,
         secp: &Secp256k1<C>,
     ) -> Result<(), InterpreterCheckError> {
-        debug_assert!(self.is_finalized());
-
         let unsigned_tx = self.unsigned_tx()?; // Used to verify signatures.
 
-        let utxos: Vec<&TxOut> = self
-            .iter_funding_utxos()
-            .map(|res| res.expect("finalized PSBT has funding utxos"))
-            .collect();
-        let utxos = &Prevouts::All(&utxos);
+        let spent = self.iter_funding_utxos().collect::<Result<Vec<&TxOut>, FundingUtxoError>>()?;
+        let utxos = &Prevouts::All(&spent);
         for (index, input) in self.inputs.iter().enumerate() {
+            let (witness, script_sig) = match (&input.final_script_witness, &input.final_script_sig)
+            {
+                (Some(witness), Some(script_sig)) => (witness, script_sig),
+                _ => return Err(InterpreterCheckError::NotFinalized { input_index: index }),
+            };
             self.interpreter_check_input(
                 secp,
                 &unsigned_tx,
                 index,
-                input,
+                &spent[index].script_pubkey,
                 utxos,
-                input.final_script_witness.as_ref().expect("checked in is_finalized"),
-                input.final_script_sig.as_ref().expect("checked in is_finalized"),
+                witness,
+                script_sig,
             )?;
         }
         Ok(())
@@ -79,15 +78,13 @@ impl Psbt {
         secp: &Secp256k1<C>,
         unsigned_tx: &Transaction,
         index: usize,
-        input: &Input,
+        spk: &ScriptBuf,
         utxos: &Prevouts<T>,
         witness: &Witness,
         script_sig: &Script,
     ) -> Result<(), InterpreterCheckInputError> {
         use InterpreterCheckInputError::*;
 
-        let spk = &input.funding_utxo().expect("have funding utxo").script_pubkey;
-
         let cltv = unsigned_tx.lock_time;
         let csv = unsigned_tx.input[index].sequence;
 
@@ -145,6 +142,13 @@ pub(crate) fn varint_len(n: usize) -> usize { VarInt(n as u64).size() }
 pub enum InterpreterCheckError {
     /// Failed to determine lock time for unsigned transaction.
     DetermineLockTime(DetermineLockTimeError),
+    /// The output spent by an input is not known.
+    FundingUtxo(FundingUtxoError),
+    /// An input is not finalized.
+    NotFinalized {
+        /// Index of the input causing this error.
+        input_index: usize,
+    },
     /// Interpreter check failed for an input.
     InterpreterCheckInput(InterpreterCheckInputError),
 }
@@ -155,6 +159,8 @@ impl fmt::Display for InterpreterCheckError {
 
         match *self {
             DetermineLockTime(ref e) => write_err!(f, "interpreter check determine locktime"; e),
+            FundingUtxo(ref e) => write_err!(f, "interpreter check funding utxo"; e),
+            NotFinalized { input_index } => write!(f, "input {} is not finalized", input_index),
             InterpreterCheckInput(ref e) => write_err!(f, "interpreter check failed for input"; e),
         }
     }
@@ -167,6 +173,8 @@ impl std::error::Error for InterpreterCheckError {
 
         match *self {
             DetermineLockTime(ref e) => Some(e),
+            FundingUtxo(ref e) => Some(e),
+            NotFinalized { .. } => None,
             InterpreterCheckInput(ref e) => Some(e),
         }
     }
@@ -176,6 +184,10 @@ impl From<DetermineLockTimeError> for InterpreterCheckError {
     fn from(e: DetermineLockTimeError) -> Self { Self::DetermineLockTime(e) }
 }
 
+impl From<FundingUtxoError> for InterpreterCheckError {
+    fn from(e: FundingUtxoError) -> Self { Self::FundingUtxo(e) }
+}
+
 impl From<InterpreterCheckInputError> for InterpreterCheckError {
     fn from(e: InterpreterCheckInputError) -> Self { Self::InterpreterCheckInput(e) }
 }
-- 
2.43.0


From 3f9e4002a8145f3852ac814e1dbefe758bf883e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 29/30] fix: refuse to combine PSBTs whose union is another
 transaction

---
 src/v2/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index edcfa05..becf83a 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -679,8 +679,9 @@ impl Psbt {
         // the lock time can not be determined so check the number of inputs and outputs as well.
         let same_counts =
             self.inputs.len() == other.inputs.len() && self.outputs.len() == other.outputs.len();
-        let same_id = match (self.id(), other.id()) {
-            (Ok(this), Ok(that)) => this == that,
+        let id = self.id();
+        let same_id = match (&id, other.id()) {
+            (Ok(this), Ok(that)) => *this == that,
             _ => true,
         };
         if !same_counts || !same_id {
@@ -690,7 +691,11 @@ impl Psbt {
         }
 
         self.combine_maps(other)?;
-        Ok(self)
+        // Required lock times only known to one of the PSBTs can lead to another lock time.
+        match (id, self.id()) {
+            (Ok(before), Ok(after)) if before != after => Err(CombineError::DifferentTransactions),
+            _ => Ok(self),
+        }
     }
 
     /// Combines all the maps of `self` with those of `other`.
-- 
2.43.0


From 016cb2965eb886f5cae4886d822e984e3eed46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 30/30] fix: read hash preimages from JSON that is not a string
 in memory

---
 src/serde_utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index ff18bf9..0a0c695 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -72,8 +72,9 @@ pub mod btreemap_byte_values {
                 mut a: A,
             ) -> Result<Self::Value, A::Error> {
                 let mut ret = BTreeMap::new();
-                while let Some((key, value)) = a.next_entry()? {
-                    ret.insert(key, FromHex::from_hex(value).map_err(serde::de::Error::custom)?);
+                // Not `&str`, a reader has no string to borrow from.
+                while let Some((key, value)) = a.next_entry::<T, String>()? {
+                    ret.insert(key, FromHex::from_hex(&value).map_err(serde::de::Error::custom)?);
                 }
                 Ok(ret)
             }
-- 
2.43.0

