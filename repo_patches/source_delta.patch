From 881fa6830579cad3a99593b47300d1c904343278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 01/73] fix: export extended keys with paths deeper than 47
 levels

The size of the SLIP32 buffer was computed in u8, which overflows for a
path of 48 to 255 levels.
---
 crypto/src/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 9ee256b..e032b00 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -214,11 +214,11 @@ impl ExtendedSK {
         })?;
 
         let capacity = 1     // 1 byte for depth
-            + 4 * depth      // 4 * depth bytes for path
+            + 4 * usize::from(depth) // 4 * depth bytes for path
             + 32             // 32 bytes for chain code
             + 33             // 33 bytes for 0x00 || private key
             ;
-        let mut bytes = Protected::new(vec![0; usize::from(capacity)]);
+        let mut bytes = Protected::new(vec![0; capacity]);
         let mut slice = bytes.as_mut();
 
         slice.write_all(&[depth])?;
-- 
2.43.0


From 5fc35307caa05b513cf6ae4fe88989ecf8255da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 02/73] fix: refuse SLIP32 private keys without the zero prefix

The prefix byte comes from the imported text: a debug assertion panicked
on it, and release builds accepted any value.
---
 crypto/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index e032b00..5de3ba5 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -193,7 +193,11 @@ impl ExtendedSK {
         cursor.read_exact(chain_code.as_mut())?;
 
         let secret_prefix = cursor.read_u8()?;
-        debug_assert!(secret_prefix == 0);
+        if secret_prefix != 0 {
+            return Err(KeyError::Deserialization(format!(
+                "invalid private key prefix, expected: 0, got: {secret_prefix}",
+            )));
+        }
 
         let mut secret = Protected::new(vec![0; 32]);
         cursor.read_exact(secret.as_mut())?;
-- 
2.43.0


From 8bfddc7ddcdd83c297541d8d50c33482761cff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 03/73] fix: evaluate inclusion proofs longer than the index
 has bits

The shift by the level overflowed from level 64 on: a panic with overflow
checks, and the wrong side of the concatenation without.
---
 crypto/src/merkle.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypto/src/merkle.rs b/crypto/src/merkle.rs
index 4c51de6..883a82d 100644
--- a/crypto/src/merkle.rs
+++ b/crypto/src/merkle.rs
@@ -309,7 +309,12 @@ impl<T: Copy + PartialEq> InclusionProof<T> {
         let mut elem = element;
         let hash_concat = self.hash_concat;
         for (level, h) in self.lemma.iter().enumerate() {
-            let h_on_the_left = ((self.index >> level) & 1) == 1;
+            // A lemma can have more levels than the index has bits: those bits are 0
+            let bit = u32::try_from(level)
+                .ok()
+                .and_then(|level| self.index.checked_shr(level))
+                .unwrap_or(0);
+            let h_on_the_left = (bit & 1) == 1;
             elem = if h_on_the_left {
                 hash_concat(*h, elem)
             } else {
-- 
2.43.0


From 213b319efea250b2f824388f26c774e5a9bd74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 04/73] fix: apply the penalties of penalize_many all together
 or not at all

When one of the penalties was rejected, the earlier ones had already been
taken from the cache but not from the packets, and expiring those packets
panicked later. Two penalties for the same identity in one call left the
cache and the packets in disagreement as well.
---
 reputation/src/trs.rs | 62 ++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/reputation/src/trs.rs b/reputation/src/trs.rs
index 81ec8d5..b598ad3 100644
--- a/reputation/src/trs.rs
+++ b/reputation/src/trs.rs
@@ -205,35 +205,41 @@ where
         K: 'a,
     {
         let mut total_subtracted = V::default();
-        let mut to_subtract = ids_fs
-            .into_iter()
-            .filter_map(|(id, mut next_v)| {
-                let mut old_v = self.get(id);
-                // next_v returns the new value of v
-                let new_v = next_v(self.get(id));
-                match new_v.cmp(&old_v) {
-                    Ordering::Greater => {
-                        // Overflow: return error
-                        Some(Err(RepError {
-                            old_rep: old_v,
-                            new_rep: new_v,
-                        }))
-                    }
-                    Ordering::Equal => {
-                        // When there is no reputation to subtract, we can skip this identity
-                        None
-                    }
-                    Ordering::Less => {
-                        old_v -= new_v;
-                        let ts = old_v;
-                        total_subtracted += ts.clone();
-                        // Update cache. Cannot fail because we just checked for overflow
-                        decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
-                        Some(Ok((id.clone(), ts)))
-                    }
+        let mut to_subtract: HashMap<K, V, S> = HashMap::default();
+        // First calculate all the penalizations, without modifying anything: if one of them
+        // fails, none of them must be applied
+        for (id, mut next_v) in ids_fs {
+            let mut old_v = self.get(id);
+            // The same identity may have been penalized before in this same call
+            if let Some(ts) = to_subtract.get(id) {
+                old_v -= ts.clone();
+            }
+            // next_v returns the new value of v
+            let new_v = next_v(old_v.clone());
+            match new_v.cmp(&old_v) {
+                Ordering::Greater => {
+                    // Overflow: return error
+                    return Err(RepError {
+                        old_rep: old_v,
+                        new_rep: new_v,
+                    });
                 }
-            })
-            .collect::<Result<HashMap<K, V, S>, _>>()?;
+                Ordering::Equal => {
+                    // When there is no reputation to subtract, we can skip this identity
+                }
+                Ordering::Less => {
+                    old_v -= new_v;
+                    let ts = old_v;
+                    total_subtracted += ts.clone();
+                    *to_subtract.entry(id.clone()).or_default() += ts;
+                }
+            }
+        }
+
+        for (id, ts) in &to_subtract {
+            // Update cache. Cannot fail because we just checked for overflow
+            decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
+        }
 
         // Iterate back to front
         for (_, rep_diff) in self.queue.iter_mut().rev() {
-- 
2.43.0


From 7bc07b955510b701ee1dc60d4ffbf1ddbfd97019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 05/73] fix: serialize ProtectedString in the form it is
 deserialized from

---
 protected/src/serde.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protected/src/serde.rs b/protected/src/serde.rs
index 358b7ef..5e0ce6a 100644
--- a/protected/src/serde.rs
+++ b/protected/src/serde.rs
@@ -34,6 +34,7 @@ impl Serialize for ProtectedString {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(self.as_ref())
+        // As a string, because that is how it is deserialized
+        serializer.serialize_str(self.as_ref())
     }
 }
-- 
2.43.0


From 4047ca750509d1b600490c300e22e736986dac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 06/73] fix: return an error for undecodable legacy messages
 instead of panicking

---
 data_structures/src/proto/versioning.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/proto/versioning.rs b/data_structures/src/proto/versioning.rs
index 62c9462..b653a39 100644
--- a/data_structures/src/proto/versioning.rs
+++ b/data_structures/src/proto/versioning.rs
@@ -283,9 +283,9 @@ pub trait Versioned: ProtobufConvert {
     /// schema.
     fn from_versioned_pb(legacy: Self::LegacyType) -> Result<Self, Error>
     where
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType, Error = Error>,
     {
-        Ok(Self::from(legacy))
+        Self::try_from(legacy)
     }
 
     /// Tries to deserialize a data structure from its regular protobuf schema, and if it fails, it
@@ -293,7 +293,7 @@ pub trait Versioned: ProtobufConvert {
     fn from_versioned_pb_bytes(bytes: &[u8]) -> Result<Self, Error>
     where
         <Self as ProtobufConvert>::ProtoStruct: protobuf::Message,
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType, Error = Error>,
     {
         let mut current = Self::ProtoStruct::new();
         let direct_attempt = current
@@ -307,7 +307,7 @@ pub trait Versioned: ProtobufConvert {
             let mut legacy = Self::LegacyType::new();
             legacy.merge_from_bytes(bytes)?;
 
-            Ok(Self::from(legacy))
+            Self::from_versioned_pb(legacy)
         }
     }
 }
@@ -848,11 +848,13 @@ impl From<LegacyMessage> for crate::proto::schema::witnet::Message {
     }
 }
 
-impl From<LegacyMessage> for Message {
-    fn from(legacy: LegacyMessage) -> Self {
+impl TryFrom<LegacyMessage> for Message {
+    type Error = Error;
+
+    fn try_from(legacy: LegacyMessage) -> Result<Self, Self::Error> {
         let pb = crate::proto::schema::witnet::Message::from(legacy);
 
-        Message::from_pb(pb).unwrap()
+        Message::from_pb(pb)
     }
 }
 
-- 
2.43.0


From 265fdbd2af084eed74e4a8456449d4af0a0e9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 07/73] fix: keep staking transactions in the versioned
 encoding of post-1.7 blocks

---
 data_structures/src/proto/versioning.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/data_structures/src/proto/versioning.rs b/data_structures/src/proto/versioning.rs
index b653a39..b7fc26e 100644
--- a/data_structures/src/proto/versioning.rs
+++ b/data_structures/src/proto/versioning.rs
@@ -365,14 +365,18 @@ impl Versioned for crate::chain::SuperBlock {
 impl Versioned for crate::chain::Block {
     type LegacyType = LegacyBlock;
 
-    fn to_versioned_pb(
-        &self,
-        _version: ProtocolVersion,
-    ) -> Result<Box<dyn protobuf::Message>, Error>
+    fn to_versioned_pb(&self, version: ProtocolVersion) -> Result<Box<dyn protobuf::Message>, Error>
     where
         <Self as ProtobufConvert>::ProtoStruct: protobuf::Message,
     {
-        Ok(Box::new(Self::LegacyType::from(self.to_pb())))
+        let pb = self.to_pb();
+
+        let versioned: Box<dyn protobuf::Message> = match version {
+            V1_7 => Box::new(Self::LegacyType::from(pb)),
+            V1_8 | V2_0 | V2_1 => Box::new(pb),
+        };
+
+        Ok(versioned)
     }
 }
 
-- 
2.43.0


From cf49455dacb97aa2334ab14d84fc0c6de3612938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 08/73] fix: do not leave an empty entry behind when the first
 stake is rejected

---
 data_structures/src/staking/stakes.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index cf7a301..46e64df 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -235,7 +235,8 @@ where
                     nonce: Nonce::from(epoch),
                     ..Default::default()
                 },
-            }));
+            }))
+            .clone();
 
         if !stake_found {
             stake.key.write()?.validator = key.validator.clone();
@@ -249,10 +250,19 @@ where
         };
 
         // Actually increase the number of coins
-        stake
-            .value
-            .write()?
-            .add_stake(coins, epoch, nonce_policy, minimum_stakeable)?;
+        let added =
+            stake
+                .value
+                .write()?
+                .add_stake(coins, epoch, nonce_policy, minimum_stakeable);
+
+        if let Err(error) = added {
+            // A rejected stake must not leave an empty, unindexed entry behind
+            if !stake_found {
+                self.by_key.remove(&key);
+            }
+            return Err(error);
+        }
 
         // Update all indexes if needed (only when the stake entry didn't exist before)
         if !stake_found {
-- 
2.43.0


From 80b6e53a98342471a69aef72bc090ffab3119426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 09/73] fix: compare the epochs and nonces of both stake
 entries

---
 data_structures/src/staking/helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/helpers.rs b/data_structures/src/staking/helpers.rs
index 673290a..9b662e7 100644
--- a/data_structures/src/staking/helpers.rs
+++ b/data_structures/src/staking/helpers.rs
@@ -164,8 +164,8 @@ where
         let other_stake = other.value.read().unwrap();
 
         self_stake.coins.eq(&other_stake.coins)
-            && other_stake.epochs.eq(&other_stake.epochs)
-            && other_stake.nonce.eq(&other_stake.nonce)
+            && self_stake.epochs.eq(&other_stake.epochs)
+            && self_stake.nonce.eq(&other_stake.nonce)
     }
 }
 
-- 
2.43.0


From 0b085a2dd0e646aa8097f4a57890ab556750ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 10/73] fix: refuse to remove more stake than there is instead
 of wrapping around

---
 data_structures/src/staking/stake.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_structures/src/staking/stake.rs b/data_structures/src/staking/stake.rs
index ab5b96a..ab8d31a 100644
--- a/data_structures/src/staking/stake.rs
+++ b/data_structures/src/staking/stake.rs
@@ -155,6 +155,14 @@ where
         nonce_policy: NoncePolicy<Epoch>,
         minimum_stakeable: Coins,
     ) -> StakesResult<Coins, Address, Coins, Epoch> {
+        // Removing more than what is staked leaves nothing that could meet the minimum
+        if coins > self.coins {
+            Err(StakesError::AmountIsBelowMinimum {
+                amount: Coins::zero(),
+                minimum: minimum_stakeable,
+            })?;
+        }
+
         let coins_after = self.coins.sub(coins);
 
         if coins_after > Coins::zero() && coins_after < minimum_stakeable {
-- 
2.43.0


From cc61eb6cf696629afc3d33d20ba63a8cc8d26996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 11/73] fix: do not let the amounts of a stake transaction wrap
 around

---
 validations/src/validations.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d52a01a..d410e21 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -122,10 +122,14 @@ pub fn st_transaction_fee(
         None => 0,
     };
 
-    if out_value + change_value > in_value {
+    let total_out_value = out_value
+        .checked_add(change_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if total_out_value > in_value {
         Err(TransactionError::NegativeFee.into())
     } else {
-        Ok(in_value - out_value - change_value)
+        Ok(in_value - total_out_value)
     }
 }
 
@@ -1413,10 +1417,11 @@ pub fn validate_stake_transaction<'a>(
                 .map(|stake| stake.value.coins)
                 .unwrap()
                 .into();
-            if staked_amount + st_tx.body.output.value > max_stake_nanowits {
+            let total_stake = staked_amount.saturating_add(st_tx.body.output.value);
+            if total_stake > max_stake_nanowits {
                 Err(TransactionError::StakeAboveMaximum {
                     max_stake: max_stake_nanowits,
-                    stake: staked_amount + st_tx.body.output.value,
+                    stake: total_stake,
                 })?;
             }
         }
-- 
2.43.0


From e8e77a598e788ede6b71b81a01e9419c3a51663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 12/73] fix: do not let the amounts of an unstake transaction
 wrap around

---
 validations/src/validations.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d410e21..144e96b 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -145,7 +145,11 @@ pub fn ut_transaction_fee(
     let out_value = ut_tx.body.value();
     let fee_value = ut_tx.body.fee;
 
-    if out_value + fee_value > staked_amount {
+    let total_value = out_value
+        .checked_add(fee_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if total_value > staked_amount {
         Err(TransactionError::NegativeFee.into())
     } else {
         Ok(fee_value)
@@ -1477,7 +1481,11 @@ pub fn validate_unstake_transaction<'a>(
     }
 
     // Check if is unstaking more than the total stake
-    let mut amount_to_unstake = ut_tx.body.value() + ut_tx.body.fee;
+    let mut amount_to_unstake = ut_tx
+        .body
+        .value()
+        .checked_add(ut_tx.body.fee)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
     let validator = ut_tx.body.operator;
     let withdrawer = ut_tx.signature.public_key.pkh();
-- 
2.43.0


From 80899ae6737416d4b2bdceadfc92d795ca2c7013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 13/73] fix: do not panic on collateral created in the same
 block as the commit

---
 validations/src/validations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 144e96b..14e9652 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -264,9 +264,10 @@ pub fn validate_commit_collateral(
         // Outputs to be spent in commitment inputs need to be older than `block_number_limit`.
         // All outputs from the genesis block are fulfill this requirement because
         // `block_number_limit` can't go lower than `0`.
+        // Outputs created earlier in the same block are not included in any block yet.
         let included_in_block_number = utxo_diff
             .included_in_block_number(input.output_pointer())
-            .unwrap();
+            .unwrap_or(block_number);
         if included_in_block_number > block_number_limit {
             return Err(TransactionError::CollateralNotMature {
                 output: *input.output_pointer(),
-- 
2.43.0


From 4bedc4cc3cc70f03fd9fe82bcb840b9c631c918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 14/73] fix: take no coins from the inputs of a wit/2 commit as
 collateral

---
 validations/src/validations.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 14e9652..a6971ee 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -292,29 +292,26 @@ pub fn validate_commit_collateral(
 
     let out_value = transaction_outputs_sum(&co_tx.body.outputs)?;
 
+    // In wit/2 the collateral is taken from the stake of the validator, so nothing can be taken from
+    // the inputs
+    let expected_collateral = if protocol_version >= ProtocolVersion::V2_0 {
+        0
+    } else {
+        required_collateral
+    };
+
     if out_value > in_value {
         Err(TransactionError::NegativeCollateral {
             input_value: in_value,
             output_value: out_value,
         }
         .into())
-    } else if in_value - out_value != required_collateral {
-        let found_collateral = in_value - out_value;
-        if protocol_version != ProtocolVersion::V2_0 {
-            Err(TransactionError::IncorrectCollateral {
-                expected: required_collateral,
-                found: found_collateral,
-            }
-            .into())
-        } else if found_collateral == 0 {
-            Ok(())
-        } else {
-            Err(TransactionError::IncorrectCollateral {
-                expected: 0,
-                found: found_collateral,
-            }
-            .into())
+    } else if in_value - out_value != expected_collateral {
+        Err(TransactionError::IncorrectCollateral {
+            expected: expected_collateral,
+            found: in_value - out_value,
         }
+        .into())
     } else {
         Ok(())
     }
-- 
2.43.0


From 5f5f878101f2cddd4004851cfbc8e5824d603e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 15/73] fix: pay the change of a wit/2 data request to nobody
 but the requester

---
 validations/src/validations.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index a6971ee..28bd634 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1287,6 +1287,16 @@ pub fn validate_tally_transaction<'a>(
                 return Err(TransactionError::MultipleRewards { pkh: output.pkh }.into());
             }
             pkh_rewarded.insert(output.pkh);
+
+            // In wit/2 the witnesses are not paid by the tally, so the only output is the change for
+            // the requester
+            if protocol_version >= ProtocolVersion::V2_0 {
+                return Err(TransactionError::PublicKeyHashMismatch {
+                    expected_pkh: dr_state.pkh,
+                    signature_pkh: output.pkh,
+                }
+                .into());
+            }
         }
 
         if is_after_second_hard_fork && output.time_lock != 0 {
-- 
2.43.0


From 1bd319b0e03eedf26d75a39cfd9c8041791abaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 16/73] fix: do not expect tallies for requests that cannot be
 resolved for lack of validators

---
 validations/src/validations.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 28bd634..c997a16 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2269,6 +2269,22 @@ pub fn validate_block_transactions(
     let mut ta_mt = ProgressiveMerkleTree::sha256();
     let mut tally_hs = HashSet::with_capacity(block.txns.tally_txns.len());
     let mut expected_tally_ready_drs = dr_pool.get_tally_ready_drs();
+    // A data request that asks for too many witnesses because the number of validators decreased
+    // after its inclusion cannot be resolved until there are enough of them, so do not expect it
+    let wit2_activation_epoch = get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
+    expected_tally_ready_drs.retain(|dr_pointer| {
+        data_requests_with_too_many_witnesses.contains(dr_pointer)
+            || dr_pool
+                .data_request_state(dr_pointer)
+                .is_none_or(|dr_state| {
+                    dr_state.epoch < wit2_activation_epoch
+                        || !data_request_has_too_many_witnesses(
+                            &dr_state.data_request,
+                            validators_count,
+                            Some(epoch),
+                        )
+                })
+    });
     for transaction in &block.txns.tally_txns {
         let data_request_protocol_version =
             if let Some(dr_state) = dr_pool.data_request_state(&transaction.dr_pointer) {
-- 
2.43.0


From fafbbb8bbc2d0e0f10cb66efa3e2fe66d4ed5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 17/73] fix: do not panic on a genesis transaction with 256 or
 more signatures

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index c997a16..32ad0d3 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -494,7 +494,7 @@ pub fn validate_genesis_vt_transaction(
     // Genesis VTTs should have 0 signatures
     if !vt_tx.signatures.is_empty() {
         return Err(TransactionError::MismatchingSignaturesNumber {
-            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap(),
+            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap_or(u8::MAX),
             inputs_n: 0,
         });
     }
-- 
2.43.0


From 62075340464a8df851e2f357a8881f516d7bbaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 18/73] fix: keep the first superblock vote of an identity, so
 that a later double vote does not panic

---
 data_structures/src/superblock.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 59cb0bf..0757ec1 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{HashMap, HashSet, hash_map::Entry},
     convert::{TryFrom, TryInto},
 };
 
@@ -168,12 +168,10 @@ impl SuperBlockVotesMempool {
 
     fn insert_vote(&mut self, sbv: SuperBlockVote) {
         let pkh = sbv.secp256k1_signature.public_key.pkh();
-        if self
-            .votes_of_each_identity
-            .insert(pkh, sbv.clone())
-            .is_none()
-        {
-            // Only insert votes from a PublicKeyHash the first time
+        // Only insert votes from a PublicKeyHash the first time, so that both maps always refer
+        // to the same vote
+        if let Entry::Vacant(entry) = self.votes_of_each_identity.entry(pkh) {
+            entry.insert(sbv.clone());
             self.votes_on_each_superblock
                 .entry(sbv.superblock_hash)
                 .or_default()
-- 
2.43.0


From 0e23b334faef44adb394e94143304b9b815d6fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 19/73] fix: require a majority of the superblock committee for
 consensus

---
 data_structures/src/superblock.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 0757ec1..4977869 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -729,9 +729,11 @@ where
 
 /// Returns true if the number of votes is enough to achieve 2/3 consensus.
 ///
-/// The number of votes needed must be greater than 2/3 of the number of identities.
+/// The number of votes needed must be at least 2/3 of the number of identities, rounded down, but
+/// always more than half of them, because otherwise two different superblocks could achieve
+/// consensus at the same time.
 pub fn two_thirds_consensus(votes: usize, identities: usize) -> bool {
-    let required_votes = identities * 2 / 3;
+    let required_votes = std::cmp::max(identities * 2 / 3, identities / 2 + 1);
 
     votes >= required_votes
 }
-- 
2.43.0


From 75f7318f3bdc48321eadf746d469aefc19803f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 20/73] fix: select an empty superblock signing committee when
 its size is zero

---
 data_structures/src/superblock.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 4977869..f484d85 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -632,6 +632,11 @@ pub fn calculate_superblock_signing_committee(
     superblock_hash: Hash,
     block_epoch: Epoch,
 ) -> HashSet<PublicKeyHash> {
+    // An empty committee has no members, and cannot be selected using `magic_partition`
+    if signing_committee_size == 0 {
+        return HashSet::new();
+    }
+
     // If the number of identities is lower than committee_size all the members of the ARS sign the superblock
     if ars_identities.len() < usize::try_from(signing_committee_size).unwrap() {
         ars_identities.identities
-- 
2.43.0


From 0478ee9ca31efcd52488b92d450cd717cb747f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 21/73] fix: reject superblock votes with malformed keys or
 signatures instead of panicking

---
 validations/src/validations.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 32ad0d3..c587289 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2989,17 +2989,9 @@ pub fn verify_signatures(
                 let secp_message = superblock_vote.secp256k1_signature_message();
                 let secp_message_hash = calculate_sha256(&secp_message);
                 verify(
-                    &superblock_vote
-                        .secp256k1_signature
-                        .public_key
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.public_key.try_into()?,
                     &secp_message_hash.0,
-                    &superblock_vote
-                        .secp256k1_signature
-                        .signature
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.signature.try_into()?,
                 )?;
             }
         }
-- 
2.43.0


From f3621359064e0c8de99196de84b699dccfea0c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 22/73] fix: reset weights and spent outputs when clearing
 stake transactions from the pool

---
 data_structures/src/chain/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 883f4a6..4d09b07 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -2725,14 +2725,18 @@ impl TransactionsPool {
 
     /// Clear stake transactions in TransactionsPool
     pub fn clear_stake_transactions(&mut self) {
-        self.st_transactions.clear();
+        for (key, (_, transaction)) in std::mem::take(&mut self.st_transactions) {
+            self.remove_tx_from_output_pointer_map(&key, &transaction.body.inputs);
+        }
         self.sorted_st_index.clear();
+        self.total_st_weight = 0;
     }
 
     /// Clear unstake transactions in TransactionsPool
     pub fn clear_unstake_transactions(&mut self) {
         self.ut_transactions.clear();
         self.sorted_ut_index.clear();
+        self.total_ut_weight = 0;
     }
 
     /// Returns `Ok(true)` if the pool already contains this transaction.
-- 
2.43.0


From 405c165b7bf4408b0f35b12b531722e2833bf11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 23/73] fix: make room in a transactions pool that only has
 stake transactions left

---
 data_structures/src/chain/mod.rs | 42 ++++++++++++++++----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 4d09b07..15d48bb 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3298,29 +3298,29 @@ impl TransactionsPool {
             #[allow(clippy::cast_precision_loss)]
             let more_vtts_than_drs =
                 self.total_vt_weight as f64 >= self.total_dr_weight as f64 * self.vt_to_dr_factor;
-            if more_vtts_than_drs {
+            // The transactions with the lowest fee/weight of each kind
+            let lowest_vt = self.sorted_vt_index.first().map(|(_, tx_hash)| *tx_hash);
+            let lowest_dr = self.sorted_dr_index.first().map(|(_, tx_hash)| *tx_hash);
+            let lowest_st = self.sorted_st_index.first().map(|(_, tx_hash)| *tx_hash);
+
+            let removed_transaction = match (lowest_vt, lowest_dr, lowest_st) {
                 // Remove the value transfer transaction with the lowest fee/weight
-                let tx_hash = self
-                    .sorted_vt_index
-                    .iter()
-                    .map(|(_fee_weight, tx_hash)| *tx_hash)
-                    .next()
-                    // There must be at least one transaction because the total weight is not zero
-                    .unwrap();
-                let tx = self.vt_remove_inner(&tx_hash, false).unwrap();
-                removed_transactions.push(Transaction::ValueTransfer(tx));
-            } else {
+                (Some(tx_hash), dr, _) if more_vtts_than_drs || dr.is_none() => self
+                    .vt_remove_inner(&tx_hash, false)
+                    .map(Transaction::ValueTransfer),
                 // Remove the data request transaction with the lowest fee/weight
-                let tx_hash = self
-                    .sorted_dr_index
-                    .iter()
-                    .map(|(_fee_weight, tx_hash)| *tx_hash)
-                    .next()
-                    // There must be at least one transaction because the total weight is not zero
-                    .unwrap();
-                let tx = self.dr_remove_inner(&tx_hash, false).unwrap();
-                removed_transactions.push(Transaction::DataRequest(tx));
-            }
+                (_, Some(tx_hash), _) => self
+                    .dr_remove_inner(&tx_hash, false)
+                    .map(Transaction::DataRequest),
+                // Only stake transactions are left, remove the one with the lowest fee/weight
+                (_, _, Some(tx_hash)) => self
+                    .st_remove_inner(&tx_hash, false)
+                    .map(Transaction::Stake),
+                (_, _, None) => None,
+            };
+
+            // There must be at least one transaction because the total weight is not zero
+            removed_transactions.push(removed_transaction.unwrap());
         }
 
         removed_transactions
-- 
2.43.0


From 5bed5741728e7737871e2793d830fde204f8b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 24/73] fix: pass collateral and minimum collateral of a data
 request in order

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 15d48bb..06d43c8 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3372,8 +3372,8 @@ impl TransactionsPool {
             }
             Transaction::DataRequest(dr_tx) => {
                 let dr_tx_reward_collateral_ratio = calculate_reward_collateral_ratio(
-                    self.collateral_minimum,
                     dr_tx.body.dr_output.collateral,
+                    self.collateral_minimum,
                     dr_tx.body.dr_output.witness_reward,
                 );
                 if dr_tx_reward_collateral_ratio > self.required_reward_collateral_ratio {
-- 
2.43.0


From f2be9b9aa31f0a33ad6834de6973e008f4f90c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 25/73] fix: keep other transactions when removing an invalid
 stake transaction from the pool

---
 data_structures/src/chain/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 06d43c8..5877b64 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3174,13 +3174,7 @@ impl TransactionsPool {
     /// Remove stake transactions that would result in overstaking on a validator
     pub fn remove_invalid_stake_transactions(&mut self, transactions: Vec<Hash>) {
         for st_tx_hash in transactions.iter() {
-            if let Some(st_tx) = self
-                .st_transactions
-                .get(st_tx_hash)
-                .map(|(_, st)| st.clone())
-            {
-                self.st_remove(&st_tx);
-            }
+            self.st_remove_inner(st_tx_hash, false);
         }
     }
 
-- 
2.43.0


From c438412f019ae14144a8028bf79d60f52814bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 26/73] fix: number getters of arrays and maps panic when
 called without arguments

---
 rad/src/operators/array.rs | 5 +++--
 rad/src/operators/map.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index 475d5d5..f5fee9a 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -99,8 +99,9 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonArray, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    let (key, separators) = args.split_at(args.len().min(1));
+    let item = get::<RadonString, _>(input, key)?.value();
+    let (thousands_separator, decimal_separator) = string::read_separators_from_args(separators);
 
     Ok(RadonString::from(string::replace_separators(
         item,
diff --git a/rad/src/operators/map.rs b/rad/src/operators/map.rs
index 6047d14..588ee40 100644
--- a/rad/src/operators/map.rs
+++ b/rad/src/operators/map.rs
@@ -57,8 +57,9 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonMap, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    let (key, separators) = args.split_at(args.len().min(1));
+    let item = get::<RadonString, _>(input, key)?.value();
+    let (thousands_separator, decimal_separator) = string::read_separators_from_args(separators);
 
     Ok(RadonString::from(string::replace_separators(
         item,
-- 
2.43.0


From bbde83118d7858ee2a54f92fb363f698eb5cb204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 27/73] fix: sorting an array by values of different types
 panics

---
 rad/src/operators/array.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index f5fee9a..fbeb1fe 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -274,6 +274,13 @@ pub fn sort(
         });
     }
 
+    // Neither is it if the values to sort by are of different types
+    if !mapped_array.is_homogeneous() {
+        return Err(RadError::UnsupportedOpNonHomogeneous {
+            operator: "ArraySort".to_string(),
+        });
+    }
+
     // Distinguish depending the type
     match &mapped_array_value.first() {
         Some(RadonTypes::String(_)) => {
-- 
2.43.0


From a8c732e9a781a8411705725a66d353fbaaff57ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 28/73] fix: slicing a string in the middle of a character
 panics

---
 rad/src/operators/string.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rad/src/operators/string.rs b/rad/src/operators/string.rs
index 17af7d4..f40e4c4 100644
--- a/rad/src/operators/string.rs
+++ b/rad/src/operators/string.rs
@@ -503,10 +503,8 @@ pub fn string_slice(input: &RadonString, args: &[Value]) -> Result<RadonString,
     let sliced_string = if output_length > 0 {
         input
             .value()
-            .split_at(start as usize)
-            .1
-            .split_at(output_length)
-            .0
+            .get(start as usize..end as usize)
+            .ok_or_else(wrong_args)?
             .to_owned()
     } else {
         String::new()
-- 
2.43.0


From 447106bd2ea6313f28af1604fbf2cc32fc3f7f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 29/73] fix: mode of more than 127 equal items is wrong

---
 rad/src/reducers/mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad/src/reducers/mode.rs b/rad/src/reducers/mode.rs
index 483b690..9d02923 100644
--- a/rad/src/reducers/mode.rs
+++ b/rad/src/reducers/mode.rs
@@ -7,7 +7,7 @@ use std::{collections::HashMap, convert::TryFrom};
 pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     let value = input.value();
 
-    let mut counter: HashMap<RadonTypes, i8> = HashMap::new();
+    let mut counter: HashMap<RadonTypes, usize> = HashMap::new();
 
     // Count how many times does each different item appear in the input array
     for item in value {
@@ -30,7 +30,7 @@ pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     if mode_vector.len() > 1 {
         Err(RadError::ModeTie {
             values: input.clone(),
-            max_count: u16::try_from(*max_count).unwrap(),
+            max_count: u16::try_from(*max_count).unwrap_or(u16::MAX),
         })
     } else {
         Ok(mode_vector.into_iter().next().unwrap())
-- 
2.43.0


From 6166c1fdc5217200e84ce0efc629e3aefd606735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 30/73] fix: making a RADON report panics if the clock goes
 back during execution

---
 data_structures/src/radon_report.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/radon_report.rs b/data_structures/src/radon_report.rs
index 828f9a8..23d9ff9 100644
--- a/data_structures/src/radon_report.rs
+++ b/data_structures/src/radon_report.rs
@@ -177,7 +177,8 @@ where
         match (self.start_time, self.completion_time) {
             (Some(start_time), Some(completion_time)) => completion_time
                 .duration_since(start_time)
-                .expect("Completion time should always be equal or greater than start time"),
+                // The system clock may have been set back in between
+                .unwrap_or_default(),
             _ => Duration::default(),
         }
     }
-- 
2.43.0


From d914b1e84343e0f6b179caede9b7efba4e5d7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 31/73] fix: all RADON values that cannot be encoded are equal
 to each other

---
 rad/src/types/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 9b4d4b7..617cfb2 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -234,10 +234,18 @@ impl PartialEq for RadonTypes {
             return false;
         }
 
-        let vec1 = self.encode();
-        let vec2 = other.encode();
-
-        vec1 == vec2
+        match (self.encode(), other.encode()) {
+            (Ok(vec1), Ok(vec2)) => vec1 == vec2,
+            // Values that cannot be encoded are compared by what they contain
+            (Err(_), Err(_)) => match (self, other) {
+                (RadonTypes::Array(a), RadonTypes::Array(b)) => a == b,
+                (RadonTypes::Integer(a), RadonTypes::Integer(b)) => a == b,
+                (RadonTypes::Map(a), RadonTypes::Map(b)) => a == b,
+                (RadonTypes::RadonError(a), RadonTypes::RadonError(b)) => a == b,
+                _ => false,
+            },
+            _ => false,
+        }
     }
 }
 
-- 
2.43.0


From 720738a997ae70d3ec3a661c0205692c7aa83f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 32/73] fix: encoding an array or map that contains a RADON
 error panics

---
 rad/src/types/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 617cfb2..bedf474 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -359,9 +359,11 @@ impl TryFrom<RadonTypes> for Value {
             RadonTypes::Array(radon_array) => radon_array.try_into(),
             RadonTypes::Boolean(radon_boolean) => radon_boolean.try_into(),
             RadonTypes::Bytes(radon_bytes) => radon_bytes.try_into(),
-            RadonTypes::RadonError(error) => panic!(
-                "Should never try to build a `serde_cbor::Value` from `RadonTypes::RadonError`. Error was: {error:?}"
-            ),
+            // Not supported by `serde_cbor::Value`, because errors need a CBOR tag
+            RadonTypes::RadonError(_) => Err(RadError::Encode {
+                from: "RadonError",
+                to: "serde_cbor::Value",
+            }),
             RadonTypes::Float(radon_float) => radon_float.try_into(),
             RadonTypes::Integer(radon_integer) => radon_integer.try_into(),
             RadonTypes::Map(radon_map) => radon_map.try_into(),
-- 
2.43.0


From 4333180a1b97105eb3e6935902e72a9926d561ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 33/73] fix: scripts composed under the current WIPs are
 executed under none

---
 rad/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index b0f4701..857fd7a 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -729,11 +729,11 @@ pub fn run_aggregation_with_context_report(
     let filters = aggregate.filters.as_slice();
     let reducer = aggregate.reducer;
 
-    let active_wips = if let Some(active_wips) = context.active_wips.as_ref() {
-        active_wips.clone()
-    } else {
-        current_active_wips()
-    };
+    // The same WIPs apply to composing the script and to executing it
+    let active_wips = context
+        .active_wips
+        .get_or_insert_with(current_active_wips)
+        .clone();
 
     let radon_script =
         create_radon_script_from_filters_and_reducer(filters, reducer, &active_wips)?;
@@ -801,11 +801,11 @@ pub fn run_tally_with_context_report(
     let filters = consensus.filters.as_slice();
     let reducer = consensus.reducer;
 
-    let active_wips = if let Some(active_wips) = context.active_wips.as_ref() {
-        active_wips.clone()
-    } else {
-        current_active_wips()
-    };
+    // The same WIPs apply to composing the script and to executing it
+    let active_wips = context
+        .active_wips
+        .get_or_insert_with(current_active_wips)
+        .clone();
 
     let radon_script =
         create_radon_script_from_filters_and_reducer(filters, reducer, &active_wips)?;
-- 
2.43.0


From c7d5d5661541c4cfa0304a69f1271b0186902c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:39 +0000
Subject: [PATCH 34/73] fix: encoding and decoding RADON errors panics on
 arguments that CBOR libraries refuse

---
 data_structures/src/radon_error.rs | 19 ++++++++++++-------
 rad/src/types/mod.rs               |  8 +++++++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/data_structures/src/radon_error.rs b/data_structures/src/radon_error.rs
index 3e866ee..c5abee4 100644
--- a/data_structures/src/radon_error.rs
+++ b/data_structures/src/radon_error.rs
@@ -124,7 +124,7 @@ where
                 // FIXME(#953): remove this conversion
                 try_from_serde_cbor_value_for_cbor_value(scv)
             })
-            .collect();
+            .collect::<Result<_, _>>()?;
 
         Ok(CborValue::Tagged(
             Tag::of(39),
@@ -162,21 +162,26 @@ where
 }
 
 /// Convert SerdeCborValue into CborValue
-pub fn try_from_serde_cbor_value_for_cbor_value(serde_cbor_value: SerdeCborValue) -> CborValue {
+pub fn try_from_serde_cbor_value_for_cbor_value(
+    serde_cbor_value: SerdeCborValue,
+) -> Result<CborValue, anyhow::Error> {
     // FIXME(#953): impl TryFrom<SerdeCborValue> for <CborValue>
     let mut decoder = cbor::decoder::GenericDecoder::new(
         cbor::Config::default(),
-        std::io::Cursor::new(serde_cbor::to_vec(&serde_cbor_value).unwrap()),
+        std::io::Cursor::new(serde_cbor::to_vec(&serde_cbor_value)?),
     );
-    decoder.value().unwrap()
+
+    Ok(decoder.value()?)
 }
 
 /// Convert CborValue into SerdeCborValue
-pub fn try_from_cbor_value_for_serde_cbor_value(cbor_value: CborValue) -> SerdeCborValue {
+pub fn try_from_cbor_value_for_serde_cbor_value(
+    cbor_value: CborValue,
+) -> Result<SerdeCborValue, anyhow::Error> {
     // FIXME(#953): impl TryFrom<CborValue> for <SerdeCborValue>
     let mut encoder = cbor::encoder::GenericEncoder::new(Cursor::new(Vec::new()));
-    encoder.value(&cbor_value).unwrap();
+    encoder.value(&cbor_value)?;
     let buffer = encoder.into_inner().into_writer().into_inner();
 
-    serde_cbor::from_slice(&buffer).unwrap()
+    Ok(serde_cbor::from_slice(&buffer)?)
 }
diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index bedf474..d6b548f 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -130,7 +130,13 @@ impl RadonTypes {
 
     /// Decodes `RadonTypes::RadonError` items from `cbor::value::Value::Array` values.
     pub fn try_error_from_cbor_value(value: CborValue) -> Result<Self, RadError> {
-        match try_from_cbor_value_for_serde_cbor_value(value) {
+        let value =
+            try_from_cbor_value_for_serde_cbor_value(value).map_err(|_| RadError::Decode {
+                from: "cbor::value::Value",
+                to: "RadonError",
+            })?;
+
+        match value {
             Value::Array(error_args) => Ok(RadonTypes::RadonError(RadError::try_from_cbor_array(
                 error_args,
             )?)),
-- 
2.43.0


From 1badda7846c5b882e81122c66285c741c196f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 35/73] fix: HTTP-HEAD sources lose part of header names and
 values

---
 rad/src/lib.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index 857fd7a..1f6b0f9 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -27,8 +27,8 @@ use crate::{
         execute_radon_script, unpack_radon_script,
     },
     types::{
-        RadonTypes, RadonTypesDiscriminant, array::RadonArray, bytes::RadonBytes, map::RadonMap,
-        string::RadonString,
+        RadonType, RadonTypes, RadonTypesDiscriminant, array::RadonArray, bytes::RadonBytes,
+        map::RadonMap, string::RadonString,
     },
     user_agents::UserAgent,
 };
@@ -235,19 +235,17 @@ fn headers_response_with_data_report(
     settings: RadonScriptExecutionSettings,
 ) -> Result<RadonReport<RadonTypes>> {
     if let RadonTypes::String(response) = response {
-        let response_string: String = response.to_string();
+        let response_string: String = response.value();
         let headers: BTreeMap<String, RadonTypes> = response_string
             .split("\r\n")
             .filter_map(|line| {
-                let parts: Vec<&str> = line.split(':').map(|part| part.trim()).collect();
-                if parts.len() >= 2 {
-                    Some((
-                        String::from(parts[0]),
-                        RadonTypes::from(RadonString::from(parts[1])),
-                    ))
-                } else {
-                    None
-                }
+                // Only the first colon is a separator, there may be others in the value
+                line.split_once(':').map(|(name, value)| {
+                    (
+                        String::from(name.trim()),
+                        RadonTypes::from(RadonString::from(value.trim())),
+                    )
+                })
             })
             .collect();
         // todo: turn multiple entries with same key into single entry with array of values
-- 
2.43.0


From 56b4b5f8eafdea18a994046b7214084bcdd58945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 36/73] fix: scripts fed with given inputs are run under no
 WIPs nor protocol version

---
 rad/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index 1f6b0f9..f6f0988 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -89,6 +89,8 @@ pub fn try_data_request(
     let protocol_version = ProtocolVersion::guess();
     let mut retrieval_context =
         ReportContext::from_stage(Stage::Retrieval(RetrievalMetadata::default()));
+    retrieval_context.set_active_wips(active_wips.clone());
+    retrieval_context.set_protocol_version(protocol_version);
     let retrieval_reports: Vec<RadonReport<RadonTypes>> = if let Some(inputs) = inputs_injection {
         assert_eq!(
             inputs.len(),
-- 
2.43.0


From f9c038081cc26b168ea77e71bc48ddfc5e5bd1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 37/73] fix: sources served over HTTPS are retrieved without
 the configured proxies

---
 net/src/client/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/src/client/http/mod.rs b/net/src/client/http/mod.rs
index 1069b51..6b7998e 100644
--- a/net/src/client/http/mod.rs
+++ b/net/src/client/http/mod.rs
@@ -103,7 +103,7 @@ impl WitnetHttpClient {
 
         let client = match proxy {
             Some(proxy) => {
-                let proxy = reqwest::Proxy::http(proxy).map_err(|err| {
+                let proxy = reqwest::Proxy::all(proxy).map_err(|err| {
                     WitnetHttpError::ClientBuildError {
                         msg: err.to_string(),
                     }
-- 
2.43.0


From 17c060c9620357505e131b88acdc47cfa96b8fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 38/73] fix: paranoid retrievals accept values that cannot be
 aggregated together

---
 rad/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index f6f0988..f24199d 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -681,6 +681,15 @@ fn evaluate_paranoid_retrieval(
         // Case 3
         .or(Err(RadError::InconsistentSource))?;
 
+    // Errors that come from aggregating the values, rather than from the data source itself, get
+    // intercepted and need to be told apart here.
+    if let RadonTypes::RadonError(_) = &tally.result
+        && reports.iter().all(|report| report.result != tally.result)
+    {
+        // Case 3 as well
+        return Err(RadError::InconsistentSource);
+    }
+
     // If the consensus of the data points is below the paranoid threshold of the node, we need
     // to resolve to the `InconsistentSource` error.
     if let Stage::Tally(TallyMetaData { consensus, .. }) = context.stage
-- 
2.43.0


From 04876220a99fe3b6692d6cbb321fab27d2249d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:26 +0000
Subject: [PATCH 39/73] fix: free the network range of an inbound session that
 could not be consolidated

A session that cannot be consolidated is dropped from both collections, but the range of its
address stayed taken, and its own attempt to unregister fails as it is not found any more. Nobody
from that network could connect again. Also, keep the range when another inbound session from the
same network is still open.
---
 p2p/src/sessions/mod.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index 69448a8..53c6c33 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -271,11 +271,27 @@ where
         // Unegister network range to allow other peers in same network range as the one we are
         // removing to take its place
         if session_type == SessionType::Inbound {
-            self.inbound_network_ranges.remove_address(&address);
+            self.release_inbound_range(&address);
         }
 
         Ok(())
     }
+    /// Forget the network range of an inbound session that is gone, unless there is still another
+    /// inbound session in that same range
+    fn release_inbound_range(&mut self, address: &SocketAddr) {
+        let ranges = &self.inbound_network_ranges;
+        let range = ranges.range_of(address);
+        let is_taken = self
+            .inbound_unconsolidated
+            .collection
+            .keys()
+            .chain(self.inbound_consolidated.collection.keys())
+            .any(|other| ranges.range_of(other) == range);
+
+        if !is_taken {
+            self.inbound_network_ranges.remove_range(range);
+        }
+    }
     /// Method to consolidate a session
     pub fn consolidate_session(
         &mut self,
@@ -292,9 +308,15 @@ where
         let cons_sessions = self.get_sessions(session_type, SessionStatus::Consolidated)?;
 
         // Register session into consolidated collection
-        cons_sessions.register_session(address, session_info.reference)?;
+        let result = cons_sessions.register_session(address, session_info.reference);
 
-        Ok(())
+        // The session is in none of the collections if it could not be consolidated, so its network
+        // range needs to be released as well
+        if result.is_err() && session_type == SessionType::Inbound {
+            self.release_inbound_range(&address);
+        }
+
+        result
     }
     /// Method to mark a session as consensus safe
     pub fn consensus_session(&mut self, address: SocketAddr) -> Result<(), SessionsError> {
@@ -401,6 +423,11 @@ pub struct NetworkRangesCollection {
 }
 
 impl NetworkRangesCollection {
+    /// The range that a socket address belongs to.
+    fn range_of(&self, address: &SocketAddr) -> [u8; 4] {
+        get_range_address(address, self.range_limit)
+    }
+
     /// Checks whether a range is present in the collection as derived from a socket address.
     pub fn contains_address(&self, address: &SocketAddr) -> Option<&[u8; 4]> {
         let range_vec = get_range_address(address, self.range_limit);
-- 
2.43.0


From 7e8ef21ce139d8fa8bb9f61a53882ae3969f45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 40/73] fix: set outputs aside for a stake only once it is
 known to fit

build_st marked the outputs it was going to spend as used before checking the
weight of the transaction, so a stake that was refused for its weight left them
unspendable until the timeout.
---
 data_structures/src/transaction_factory.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index c844212..12d11ea 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -837,13 +837,6 @@ pub fn build_st(
 
     let used_pointers = tx_info.inputs.pointers.iter().cloned().map(Input::new);
 
-    // Mark UTXOs as used so we don't double spend
-    // Save the timestamp after which the transaction will be considered timed out
-    // and the output will become available for spending it again
-    if !dry_run {
-        utxos.set_used_output_pointer(used_pointers.clone(), timestamp + tx_pending_timeout);
-    }
-
     // Only use a change output if there is value inserted by inputs that is not consumed by outputs
     // or fees
     let change_value = tx_info
@@ -861,7 +854,7 @@ pub fn build_st(
         None
     };
 
-    let inputs = used_pointers.collect::<Vec<_>>();
+    let inputs = used_pointers.clone().collect::<Vec<_>>();
     let body = StakeTransactionBody::new(inputs, output, change);
 
     let txn_weight = body.weight();
@@ -872,6 +865,13 @@ pub fn build_st(
         });
     }
 
+    // Mark UTXOs as used so we don't double spend
+    // Save the timestamp after which the transaction will be considered timed out
+    // and the output will become available for spending it again
+    if !dry_run {
+        utxos.set_used_output_pointer(used_pointers, timestamp + tx_pending_timeout);
+    }
+
     Ok(body)
 }
 
-- 
2.43.0


From ee95bea8d028d86a89512b3980afa1b33f696a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 41/73] fix: relative fees of stakes are for their whole weight

The fee was computed once, for a single input and no change, however many inputs
the stake ended up with, so it was below the requested priority. Staying within
the maximum weight was not checked in the loop either, which subtracted below
zero when even one input did not fit, or ran into the unreachable!() after it.
---
 data_structures/src/transaction_factory.rs | 32 ++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index 12d11ea..60b4f0f 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -295,10 +295,9 @@ pub trait OutputsCollection {
                 })
             }
             Fee::Relative(priority) => {
-                let absolute_fee = priority.into_absolute(current_weight);
-
-                let max_iterations = 1 + ((max_weight - current_weight) / INPUT_SIZE);
+                let max_iterations = 1 + (max_weight.saturating_sub(current_weight) / INPUT_SIZE);
                 for _i in 0..max_iterations {
+                    let absolute_fee = priority.into_absolute(current_weight);
                     let amount = output_value
                         .checked_add(absolute_fee.as_nanowits())
                         .ok_or(TransactionError::FeeOverflow)?;
@@ -338,7 +337,29 @@ pub trait OutputsCollection {
                         }
                     };
 
-                    if new_weight == current_weight {
+                    if new_weight > max_weight {
+                        return Err(match outputs {
+                            TransactionOutputs::DataRequest((dr_output, _)) => {
+                                TransactionError::DataRequestWeightLimitExceeded {
+                                    weight: new_weight,
+                                    max_weight,
+                                    dr_output: Box::new(dr_output),
+                                }
+                            }
+                            TransactionOutputs::Stake(_) => {
+                                TransactionError::StakeWeightLimitExceeded {
+                                    weight: new_weight,
+                                    max_weight,
+                                }
+                            }
+                            TransactionOutputs::ValueTransfer(_) => {
+                                TransactionError::ValueTransferWeightLimitExceeded {
+                                    weight: new_weight,
+                                    max_weight,
+                                }
+                            }
+                        });
+                    } else if new_weight == current_weight {
                         return Ok(TransactionInfo {
                             fee: absolute_fee,
                             inputs: collected_outputs,
@@ -827,7 +848,8 @@ pub fn build_st(
     };
 
     let tx_info = utxos.generic_transaction_factory(
-        TransactionOutputs::Stake((output.clone(), None)),
+        // The change is only known later, but it counts for the weight
+        TransactionOutputs::Stake((output.clone(), Some(ValueTransferOutput::default()))),
         fee,
         timestamp,
         None,
-- 
2.43.0


From 2a0ef3bb9377e36ed005db41edf576265a4f1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 42/73] fix: list local and pending movements of a wallet
 newest first, as those in the database are

---
 wallet/src/repository/wallet/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index eff07e7..5227a7c 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -621,7 +621,7 @@ where
             let mut local_movements: Vec<model::BalanceMovement> =
                 state.local_movements.values().cloned().collect();
             local_movements.sort_by(|a, b| a.db_key.cmp(&b.db_key));
-            transactions.extend_from_slice(local_movements.drain(range_local).as_slice());
+            transactions.extend(local_movements.drain(range_local).rev());
         }
 
         // Append balance movements of pending blocks
@@ -645,7 +645,7 @@ where
                 );
             });
 
-            transactions.extend_from_slice(&all_pending_movements[range_pending]);
+            transactions.extend(all_pending_movements.drain(range_pending).rev());
         }
 
         // Build a HashMap<transaction_index, balance_movement>
-- 
2.43.0


From 60b338aec70907a052fafe2a17ff408785fe2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 43/73] fix: a second stake of a wallet adds to the first

---
 wallet/src/repository/wallet/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 5227a7c..ef9ae9e 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1495,7 +1495,7 @@ where
             let amount = if let Some(output) = output {
                 output
                     .value
-                    .checked_sub(stake_output_insert.amount)
+                    .checked_add(stake_output_insert.amount)
                     .ok_or(Error::TransactionValueOverflow)?
             } else {
                 stake_output_insert.amount
-- 
2.43.0


From 462c243ebef47ac6540907d7ad7740c67efa1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 44/73] fix: withdrawing more than the wallet knows to be
 staked is no error

---
 wallet/src/repository/wallet/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index ef9ae9e..db5735e 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1471,7 +1471,8 @@ where
         for stake_output_remove in &account_mutation.stake_output_removals {
             let output = state.stake_output_set.get(&stake_output_remove.key);
             if let Some(output) = output {
-                if output.value == stake_output_remove.amount {
+                // Rewards may have made the stake larger than what is known of it
+                if output.value <= stake_output_remove.amount {
                     state.stake_output_set.remove(&output.key.clone());
                 } else {
                     state.stake_output_set.insert(
-- 
2.43.0


From 0345546ab6c6b96964fe720533120591e8f4d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 45/73] fix: the fee of an unstake comes out of the stake too

---
 wallet/src/repository/wallet/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index db5735e..fe45b42 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1853,7 +1853,7 @@ where
                     withdrawer: unstake.body.withdrawal.pkh,
                     validator: unstake.body.operator,
                 },
-                amount: unstake.body.withdrawal.value,
+                amount: unstake.body.withdrawal.value + unstake.body.fee,
             };
             stake_output_removals.push(stake_output_info);
         }
-- 
2.43.0


From 2a59e11944b9138b276424469e30a0680c884959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 46/73] fix: clear stakes, local balance and requests with the
 rest of the pending state of a wallet

---
 wallet/src/repository/wallet/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index fe45b42..e17daf8 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -276,6 +276,7 @@ where
         state.pending_transactions.clear();
         state.pending_addresses_by_path.clear();
         state.pending_addresses_by_block.clear();
+        state.pending_dr_movements.clear();
         state.local_movements.clear();
         state.db_movements_to_update.clear();
 
@@ -284,9 +285,13 @@ where
             .db
             .get_or_default(&keys::transaction_next_id(account))?;
         state.utxo_set = self.db.get_or_default(&keys::account_utxo_set(account))?;
+        state.stake_output_set = self
+            .db
+            .get_or_default(&keys::account_stake_output_set(account))?;
         state.used_outputs = model::clean_used_outputs(&state.used_outputs, &state.utxo_set);
         state.balance.confirmed = self.db.get_or_default(&keys::account_balance(account))?;
         state.balance.unconfirmed = state.balance.confirmed;
+        state.balance.local = Default::default();
 
         Ok(())
     }
-- 
2.43.0


From 88eceafa4338520931da978a76b3efb98dc26f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 47/73] fix: keep the outputs set aside until later, not those
 set aside until earlier

---
 wallet/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/model.rs b/wallet/src/model.rs
index b48e491..d56c4ac 100644
--- a/wallet/src/model.rs
+++ b/wallet/src/model.rs
@@ -420,7 +420,7 @@ pub fn clean_used_outputs(used_outputs: &UsedOutputs, utxo_set: &UtxoSet) -> Use
     let mut new_hm = UsedOutputs::default();
     let now = get_timestamp() as u64;
     for (o, &ts) in used_outputs.iter() {
-        if utxo_set.contains_key(o) && ts < now {
+        if utxo_set.contains_key(o) && ts >= now {
             new_hm.insert(o.clone(), ts);
         }
     }
-- 
2.43.0


From b608a6f5b01f511b720779d55805e6bbb960875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 48/73] fix: an output is available from its time lock on, in a
 wallet's balance too

---
 wallet/src/repository/wallet/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index e17daf8..b0b974b 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -962,7 +962,7 @@ where
             .fold(
                 model::BalanceInfo::default(),
                 |mut acc, (amount, time_lock)| {
-                    if timestamp > time_lock {
+                    if timestamp >= time_lock {
                         acc.available =
                             acc.available.checked_add(amount).expect("balance overflow");
                     } else {
-- 
2.43.0


From 7bc213c30f24af774d91e511fa68156cf79cf381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:04 +0000
Subject: [PATCH 49/73] fix: clear the stakes of a wallet with the rest of its
 chain data

---
 wallet/src/repository/wallet/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wallet/src/repository/wallet/state.rs b/wallet/src/repository/wallet/state.rs
index 732b936..fc463b9 100644
--- a/wallet/src/repository/wallet/state.rs
+++ b/wallet/src/repository/wallet/state.rs
@@ -101,6 +101,7 @@ impl State {
     ///
     pub fn clear_chain_data(&mut self) {
         self.balance = Default::default();
+        self.db_movements_to_update.clear();
         self.last_confirmed = self.birth_date;
         self.last_sync = self.birth_date;
         self.local_movements.clear();
@@ -114,6 +115,7 @@ impl State {
         self.pending_transactions.clear();
         self.transaction_next_id = Default::default();
         self.utxo_set.clear();
+        self.stake_output_set.clear();
         self.used_outputs.clear();
         self.transient_internal_addresses.clear();
         self.transient_external_addresses.clear();
-- 
2.43.0


From 2415dd65fa713a00747b410dcee293e3b0e3e5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:04 +0000
Subject: [PATCH 50/73] fix: clear the outputs, stakes and balance of a wallet
 in its database too

---
 wallet/src/repository/wallet/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index b0b974b..058b05e 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2127,6 +2127,9 @@ where
         let mut batch = self.db.batch();
         batch.put(&keys::wallet_last_sync(), state.birth_date)?;
         batch.put(&keys::transaction_next_id(0), 0)?;
+        batch.put(&keys::account_utxo_set(0), &state.utxo_set)?;
+        batch.put(&keys::account_stake_output_set(0), &state.stake_output_set)?;
+        batch.put(&keys::account_balance(0), &state.balance.confirmed)?;
         batch.put(
             &keys::account_next_index(0, constants::EXTERNAL_KEYCHAIN),
             0,
-- 
2.43.0


From beb149eaa940f2522ab65d65adc55c01c5072952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:04 +0000
Subject: [PATCH 51/73] fix: a reveal that cannot be decoded does not keep a
 wallet from indexing a block

---
 wallet/src/repository/wallet/mod.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 058b05e..2a2b070 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2330,19 +2330,21 @@ fn build_tally_report(
                 .reveals
                 .iter()
                 .map(|(pkh, reveal_txn)| {
-                    RadonTypes::try_from(reveal_txn.body.reveal.as_slice())
-                        .map(|x| {
-                            (
-                                *pkh,
-                                model::Reveal {
-                                    value: x.to_string(),
-                                    in_consensus: true,
-                                },
-                            )
-                        })
-                        .map_err(|err| Error::RevealRadDecode(err.to_string()))
+                    // Anything can be revealed, including what cannot be decoded
+                    let value = RadonTypes::try_from(reveal_txn.body.reveal.as_slice())
+                        .unwrap_or_else(|_| {
+                            RadonTypes::from(RadonError::new(RadError::MalformedReveal))
+                        });
+
+                    (
+                        *pkh,
+                        model::Reveal {
+                            value: value.to_string(),
+                            in_consensus: true,
+                        },
+                    )
                 })
-                .collect::<Result<HashMap<PublicKeyHash, model::Reveal>>>()?;
+                .collect();
 
             // Set not `in_consensus` reveals
             for pkh in &tally.out_of_consensus {
-- 
2.43.0


From c41753d802e828fd73467ee272bc8c671dfc2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:04 +0000
Subject: [PATCH 52/73] fix: tell the reveals that a tally finds out of
 consensus

---
 wallet/src/repository/wallet/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 2a2b070..c97c7f5 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2348,8 +2348,7 @@ fn build_tally_report(
 
             // Set not `in_consensus` reveals
             for pkh in &tally.out_of_consensus {
-                let outlier = reveals.get_mut(pkh).cloned();
-                if let Some(mut reveal) = outlier {
+                if let Some(reveal) = reveals.get_mut(pkh) {
                     reveal.in_consensus = false;
                 } else {
                     reveals.insert(
-- 
2.43.0


From 4229ba9d02b2161c181f2c5a0dd3735e3326878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:24 +0000
Subject: [PATCH 53/73] fix: the cost and collateral of data requests are no
 miner fees

---
 wallet/src/repository/wallet/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index c97c7f5..bf50ef3 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1889,10 +1889,22 @@ where
                     Transaction::Stake(st) => total_input_amount
                         .saturating_sub(st.body.output.value)
                         .saturating_sub(st.body.change.map_or(0, |change| change.value)),
+                    // What a commit does not get back is its collateral
+                    Transaction::Commit(_) => 0,
                     // Genesis block (no inputs) or empty block with only `MintTransaction`
                     _ if total_input_amount == 0 => 0,
-                    _ => {
+                    other => {
                         let total_output_amount = outputs.iter().fold(0, |acc, x| acc + x.value);
+                        // What solving a data request is paid with is no fee
+                        let total_output_amount = match other {
+                            Transaction::DataRequest(dr) => dr
+                                .body
+                                .dr_output
+                                .checked_total_value()
+                                .unwrap_or(u64::MAX)
+                                .saturating_add(total_output_amount),
+                            _ => total_output_amount,
+                        };
 
                         total_input_amount
                             .checked_sub(total_output_amount)
-- 
2.43.0


From 620aa4c70f6564780b5bc17cdb2f5d9bebff74eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:42 +0000
Subject: [PATCH 54/73] fix: tell the miner fee of an unstake

---
 wallet/src/repository/wallet/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index bf50ef3..cfb1cf2 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1918,7 +1918,11 @@ where
                     }
                 }
             }
-            _ => 0,
+            _ => match &txn.transaction {
+                // The fee of an unstake is not told by its inputs
+                Transaction::Unstake(unstake) => unstake.body.fee,
+                _ => 0,
+            },
         };
 
         // If no metadata is present in the extended transaction, insert resolved inputs so that
-- 
2.43.0


From f1a193064dfc9c570b94cda8f21ce19850add8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:55 +0000
Subject: [PATCH 55/73] fix: forget what was pending of addresses once a
 confirmed block is persisted

---
 wallet/src/repository/wallet/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index cfb1cf2..be8b7ab 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -997,6 +997,8 @@ where
             // At this point state.utxo_set will only have confirmed utxos, so we can clear the
             // pending transactions
             state.pending_transactions.clear();
+            // Likewise, what was pending of the addresses has just been superseded
+            state.pending_addresses_by_path.clear();
 
             // Update pending DR movements if they were persisted
             // balance_movements_to_persist.
-- 
2.43.0


From b467cdd4b1e9ce3821665f87275cea29e3bfaf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 56/73] fix: a wallet that cannot read its database misses no
 transaction for it

---
 wallet/src/repository/wallet/mod.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index be8b7ab..4dc2f1a 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -821,24 +821,27 @@ where
                     .contains_key(&tally.dr_pointer.to_string())
                     || self
                         .db
-                        .get(&keys::transactions_index(tally.dr_pointer.as_ref()))
-                        .is_ok()
+                        .get_opt(&keys::transactions_index(tally.dr_pointer.as_ref()))?
+                        .is_some()
                 {
                     filtered_txns.push(txn.clone());
                     continue;
                 }
             }
 
-            let check_db_and_transient = |output: &ValueTransferOutput| {
-                self.db.get(&keys::pkh(&output.pkh)).is_ok()
+            let check_db_and_transient = |output: &ValueTransferOutput| -> Result<bool> {
+                Ok(self.db.get_opt(&keys::pkh(&output.pkh))?.is_some()
                     || state.transient_external_addresses.contains_key(&output.pkh)
-                    || state.transient_internal_addresses.contains_key(&output.pkh)
+                    || state.transient_internal_addresses.contains_key(&output.pkh))
             };
             // Check if any input or output is from the wallet (input is an UTXO or output points to any wallet's pkh)
             if inputs
                 .iter()
                 .any(|input| state.utxo_set.contains_key(&input.output_pointer().into()))
-                || outputs.iter().any(check_db_and_transient)
+                || outputs
+                    .iter()
+                    .map(check_db_and_transient)
+                    .fold_ok(false, |any, own| any || own)?
             {
                 filtered_txns.push(txn.clone());
             }
@@ -922,15 +925,13 @@ where
                     }
                 }
                 // The DR transaction was confirmed but the tally wasn't. Fetch the dr from DB.
-                else if let Ok((dr_movement, txn_id)) = self
+                else if let Some(txn_id) = self
                     .db
-                    .get(&keys::transactions_index(tally.dr_pointer.as_ref()))
-                    .and_then(|txn_id| {
-                        self.db
-                            .get(&keys::transaction_movement(state.account, txn_id))
-                            .map(|dr_movement| (dr_movement, txn_id))
-                    })
+                    .get_opt(&keys::transactions_index(tally.dr_pointer.as_ref()))?
                 {
+                    let dr_movement = self
+                        .db
+                        .get(&keys::transaction_movement(state.account, txn_id))?;
                     log::debug!("Found a tally for data request {txn_id:?} that was in DB");
                     match &dr_movement.transaction.data.clone() {
                         model::TransactionData::DataRequest(dr_data) => {
-- 
2.43.0


From c0d3fb744e06e28ed8919a2f9b99cd9073e80cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:08 +0000
Subject: [PATCH 57/73] fix: consolidate the blocks of a missed superblock
 along with those of the next

---
 wallet/src/repository/wallet/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 4dc2f1a..19a3e8f 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2053,11 +2053,32 @@ where
             if block_hash == &self.params.genesis_hash.to_string() {
                 Ok(())
             } else {
+                // Confirming a block confirms those before it, even if their superblock was missed
+                self.pending_blocks_before(block_hash)?
+                    .iter()
+                    .try_for_each(|ancestor| self.try_consolidate_block(ancestor))?;
                 self.try_consolidate_block(block_hash)
             }
         })
     }
 
+    /// Hashes of the pending blocks that precede a pending block, oldest first.
+    fn pending_blocks_before(&self, block_hash: &str) -> Result<Vec<String>> {
+        let state = self.state.read()?;
+        let epoch = state
+            .pending_blocks
+            .get(block_hash)
+            .map_or(0, |block| block.beacon.epoch);
+
+        Ok(state
+            .pending_blocks
+            .values()
+            .filter(|block| block.beacon.epoch < epoch)
+            .sorted_by_key(|block| block.beacon.epoch)
+            .map(|block| block.beacon.block_hash.to_string())
+            .collect())
+    }
+
     /// Try to consolidate a block by persisting all changes into the database.
     pub fn try_consolidate_block(&self, block_hash: &str) -> Result<()> {
         let mut state = self.state.write()?;
-- 
2.43.0


From ad3aeb61a1112e81c3dc6be081eb523fb9d6e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 58/73] fix: count a transaction that a wallet sends twice once

---
 wallet/src/repository/wallet/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 19a3e8f..c32607d 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1643,9 +1643,17 @@ where
                     .expect("Get timestamp should return a positive value");
             let protocol_version = self.params.protocol_info.current_version;
             let txn_hash = txn.transaction.versioned_hash(protocol_version);
-            state
+            // The same transaction may be sent again
+            if let Some(sent_before) = state
                 .local_movements
-                .insert(txn_hash, account_mutation.balance_movement.clone());
+                .insert(txn_hash, account_mutation.balance_movement.clone())
+            {
+                state.balance.local = state
+                    .balance
+                    .local
+                    .checked_sub(sent_before.amount)
+                    .ok_or(Error::TransactionValueOverflow)?;
+            }
             log::debug!("Local pending movement added for transaction id: {txn_hash})");
             state.balance.local = state
                 .balance
-- 
2.43.0


From 42b6e430fea299852b27dc92cee0b160a6f61304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:52 +0000
Subject: [PATCH 59/73] fix: session identifiers of any form can be shown

---
 wallet/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/src/types.rs b/wallet/src/types.rs
index 7a1d565..83cf274 100644
--- a/wallet/src/types.rs
+++ b/wallet/src/types.rs
@@ -70,14 +70,14 @@ impl TryFrom<&jsonrpc_pubsub::SubscriptionId> for SessionId {
 impl fmt::Display for SessionId {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}...", &self.0[..5])
+        write!(f, "{}...", self.0.chars().take(5).collect::<String>())
     }
 }
 
 impl fmt::Debug for SessionId {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{:?}...", &self.0[..5])
+        write!(f, "{:?}...", self.0.chars().take(5).collect::<String>())
     }
 }
 
-- 
2.43.0


From 8616eaec9f1528b027efd689466d71049255cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:52 +0000
Subject: [PATCH 60/73] fix: encrypted data without IV or salt is an error

---
 wallet/src/crypto.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wallet/src/crypto.rs b/wallet/src/crypto.rs
index ac380d2..605548b 100644
--- a/wallet/src/crypto.rs
+++ b/wallet/src/crypto.rs
@@ -27,6 +27,9 @@ pub enum Error {
     InvalidKeyPath(String),
     #[error("The AES encryption/decryption failed: {0}")]
     Aes(cipher::Error),
+    /// The data to be decrypted is too short to contain an IV and a salt.
+    #[error("The ciphertext is too short: {0} bytes")]
+    CiphertextTooShort(usize),
 }
 
 /// Result type for cryptographic operations that can fail.
@@ -131,6 +134,9 @@ pub fn encrypt_cbc(value: &[u8], password: &[u8]) -> Result<Vec<u8>> {
 
 /// AES-CBC decryption of a given u8 given as IV|SALT|CIPHERTEXT slice with the provided password.
 pub fn decrypt_cbc(ciphertext: &[u8], password: &[u8]) -> Result<Vec<u8>> {
+    if ciphertext.len() < IV_LENGTH + SALT_LENGTH {
+        return Err(Error::CiphertextTooShort(ciphertext.len()));
+    }
     let mut iv = ciphertext.to_vec();
     let mut salt = iv.split_off(IV_LENGTH);
     let true_ciphertext = salt.split_off(SALT_LENGTH);
-- 
2.43.0


From afb0e93b11295694c63c9abb84316cc6aedcf0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:52 +0000
Subject: [PATCH 61/73] fix: keep passwords and seeds out of the log

---
 wallet/src/actors/app/routes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wallet/src/actors/app/routes.rs b/wallet/src/actors/app/routes.rs
index f902c0e..1c05ab9 100644
--- a/wallet/src/actors/app/routes.rs
+++ b/wallet/src/actors/app/routes.rs
@@ -15,7 +15,8 @@ macro_rules! routes {
         {
             let api_addr = $api.clone();
             $io.add_method($method_jsonrpc, move |params: Params| {
-                log::debug!("Handling request for method {}: {:?}", $method_jsonrpc, params);
+                // The params may contain secrets, they must not be logged
+                log::debug!("Handling request for method {}", $method_jsonrpc);
                 let addr = api_addr.clone();
                 // Try to parse the request params into the actor message
                 let fut03 = future::ready(params.parse::<$actor_msg>())
-- 
2.43.0


From 148805298d7f173a9702530e56299581cc5ca419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:52 +0000
Subject: [PATCH 62/73] fix: locking a wallet in one session does not stop
 another session's

---
 wallet/src/actors/app/state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wallet/src/actors/app/state.rs b/wallet/src/actors/app/state.rs
index 27fdb12..4590cd3 100644
--- a/wallet/src/actors/app/state.rs
+++ b/wallet/src/actors/app/state.rs
@@ -144,7 +144,12 @@ impl State {
             .ok_or(Error::SessionNotFound)?;
 
         session.wallets.remove(wallet_id);
-        self.wallets.remove(wallet_id);
+        // The wallet may be in use by a later session, which has to keep receiving updates
+        if let Some(wallet) = self.wallets.get(wallet_id)
+            && &wallet.session_id == session_id
+        {
+            self.wallets.remove(wallet_id);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 83267621f067890e455ce7e06065bf753ea0c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:05 +0000
Subject: [PATCH 63/73] fix: importing a wallet does not need a block shortly
 before its birth date

---
 wallet/src/actors/worker/methods.rs | 33 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/wallet/src/actors/worker/methods.rs b/wallet/src/actors/worker/methods.rs
index e2a2187..6a35c73 100644
--- a/wallet/src/actors/worker/methods.rs
+++ b/wallet/src/actors/worker/methods.rs
@@ -182,19 +182,26 @@ impl Worker {
                     2,
                 );
                 let gen_res: Vec<ChainEntry> = futures::executor::block_on(gen_fut)?;
-                let gen_entry = gen_res.first().expect(
-                    "It should always find a last consolidated block for a any epoch number",
-                );
-                let get_gen_future = self.get_block(gen_entry.1.clone());
-                let (block, _confirmed_1) = futures::executor::block_on(get_gen_future)?;
-                let protocol_version = self
-                    .node
-                    .protocol_info
-                    .all_versions
-                    .version_for_epoch(block.block_header.beacon.checkpoint);
-                CheckpointBeacon {
-                    checkpoint: block.block_header.beacon.checkpoint,
-                    hash_prev_block: block.versioned_hash(protocol_version),
+                // The block taken as birth date is not indexed itself
+                match gen_res.first().filter(|entry| entry.0 < epoch) {
+                    Some(gen_entry) => {
+                        let get_gen_future = self.get_block(gen_entry.1.clone());
+                        let (block, _confirmed_1) = futures::executor::block_on(get_gen_future)?;
+                        let protocol_version = self
+                            .node
+                            .protocol_info
+                            .all_versions
+                            .version_for_epoch(block.block_header.beacon.checkpoint);
+                        CheckpointBeacon {
+                            checkpoint: block.block_header.beacon.checkpoint,
+                            hash_prev_block: block.versioned_hash(protocol_version),
+                        }
+                    }
+                    // Fall back to genesis if there is no block shortly before the birth date
+                    None => CheckpointBeacon {
+                        checkpoint: 0,
+                        hash_prev_block: self.params.genesis_prev_hash,
+                    },
                 }
             }
             None => {
-- 
2.43.0


From 050323b4afe013052f6e3749dc149e47b7499404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:05 +0000
Subject: [PATCH 64/73] fix: a failed attempt to unlock a wallet does not stop
 its synchronization

---
 wallet/src/actors/app/methods.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wallet/src/actors/app/methods.rs b/wallet/src/actors/app/methods.rs
index 300d266..6f6e00c 100644
--- a/wallet/src/actors/app/methods.rs
+++ b/wallet/src/actors/app/methods.rs
@@ -384,11 +384,6 @@ impl App {
         wallet_id: String,
         password: types::Password,
     ) -> ResponseActFuture<types::UnlockedWallet> {
-        // If a synchronization from a previous session is still running, set `stop_syncing` to
-        // `true` so as to signal that it must stop as soon as possible
-        if let Some(wallet) = self.state.get_current_wallet_session(wallet_id.clone()) {
-            wallet.set_stop_syncing().expect("Lock error")
-        }
         let id = wallet_id.clone();
         let f = self
             .params
@@ -403,6 +398,12 @@ impl App {
                     data,
                 } = res;
 
+                // If a synchronization from a previous session is still running, set `stop_syncing`
+                // to `true` so as to signal that it must stop as soon as possible. This must not
+                // happen if the wallet could not be unlocked, as the previous session goes on then
+                if let Some(wallet) = slf.state.get_current_wallet_session(wallet_id.clone()) {
+                    wallet.set_stop_syncing().expect("Lock error")
+                }
                 slf.state
                     .create_session(session_id.clone(), wallet_id.clone(), wallet.clone());
 
-- 
2.43.0


From 748a4ca2815ac8a49790242c09451bf2d0ceacfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:46 +0000
Subject: [PATCH 65/73] fix: what an address received in all does not wrap
 around

Change returns to the same address again and again, so its total may exceed 64 bits.
---
 wallet/src/repository/wallet/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index c32607d..fb35ba8 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1559,7 +1559,9 @@ where
                         info: model::AddressInfo {
                             label: info.label.clone(),
                             received_payments,
-                            received_amount: info.received_amount + key_balance.amount,
+                            received_amount: info
+                                .received_amount
+                                .saturating_add(key_balance.amount),
                             first_payment_date,
                             last_payment_date: Some(current_timestamp),
                         },
-- 
2.43.0


From db261aa3c0cda276993557d5d78c43044f6b6559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:19 +0000
Subject: [PATCH 66/73] fix: an output pointer ends with its index

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 5877b64..42f8cf4 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3691,7 +3691,7 @@ impl FromStr for OutputPointer {
             return Err(OutputPointerParseError::MissingColon);
         }
 
-        let mut tokens = s.trim().split(':');
+        let mut tokens = s.trim().splitn(2, ':');
 
         let transaction_id = tokens
             .next()
-- 
2.43.0


From e15cacba8404dc06f312c9079f5b90ed512a576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:19 +0000
Subject: [PATCH 67/73] fix: the error about an address for another network
 gives the prefix of that address

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 42f8cf4..cf66856 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -1556,7 +1556,7 @@ impl PublicKeyHash {
 
         if prefix != expected_prefix {
             Err(PublicKeyHashParseError::WrongEnvironment {
-                prefix: expected_prefix_str,
+                prefix: prefix.to_string(),
                 expected_environment: environment,
             })
         } else {
-- 
2.43.0


From 86e48d8d48d547b7796923bea703428bdfbd24e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:27 +0000
Subject: [PATCH 68/73] fix: a [log] section without a level has the default
 level

---
 config/src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/src/config.rs b/config/src/config.rs
index cde4dde..616c489 100644
--- a/config/src/config.rs
+++ b/config/src/config.rs
@@ -142,6 +142,7 @@ pub struct Config {
 pub struct Log {
     /// Level for the log messages.
     #[partial_struct(serde(
+        default,
         deserialize_with = "as_log_filter",
         serialize_with = "as_log_filter_string"
     ))]
-- 
2.43.0


From 1e7450e57d8aa04581f8c954fbb8068c44ea0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:27 +0000
Subject: [PATCH 69/73] fix: the log level "none" logs nothing

---
 config/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/src/config.rs b/config/src/config.rs
index 616c489..ad30c6b 100644
--- a/config/src/config.rs
+++ b/config/src/config.rs
@@ -1262,7 +1262,7 @@ where
 {
     let level_string = String::deserialize(deserializer)?;
     let level = match level_string.as_ref() {
-        "off" => log::LevelFilter::Off,
+        "off" | "none" => log::LevelFilter::Off,
         "error" => log::LevelFilter::Error,
         "warn" => log::LevelFilter::Warn,
         "debug" => log::LevelFilter::Debug,
-- 
2.43.0


From 447cb018a10776ab752b0b4fd1b28d9c05c0e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:27 +0000
Subject: [PATCH 70/73] fix: do not panic when a validator withdrew its stake
 before the tally

A witness may unstake everything between its commit and the tally of the
data request. Refunding, rewarding or slashing it then failed with
ValidatorNotFound, whose unwrap made every node panic when consolidating
the block.
---
 node/src/actors/chain_manager/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 0f18bc5..e06d285 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -3126,9 +3126,12 @@ fn process_wit2_stakes_changes(
                     collateral + reward,
                     ta_tx.dr_pointer
                 );
-                stakes
-                    .add_reward(honest_pkh, Wit::from(collateral + reward), block_epoch)
-                    .unwrap();
+                // A validator may have withdrawn all of its stake after committing
+                if let Err(e) =
+                    stakes.add_reward(honest_pkh, Wit::from(collateral + reward), block_epoch)
+                {
+                    log::error!("Failed to refund and reward {honest_pkh}: {e}");
+                }
             }
 
             // Refund errored validators
@@ -3139,9 +3142,9 @@ fn process_wit2_stakes_changes(
                     collateral,
                     ta_tx.dr_pointer
                 );
-                stakes
-                    .add_reward(*error_pkh, Wit::from(collateral), block_epoch)
-                    .unwrap();
+                if let Err(e) = stakes.add_reward(*error_pkh, Wit::from(collateral), block_epoch) {
+                    log::error!("Failed to refund {error_pkh}: {e}");
+                }
             }
         }
 
@@ -3226,9 +3229,11 @@ fn process_wit2_stakes_changes(
                     liar_pkh,
                     ta_tx.dr_pointer,
                 );
-                stakes
-                    .reset_age(*liar_pkh, Capability::Witnessing, block_epoch + 10, 1)
-                    .unwrap();
+                if let Err(e) =
+                    stakes.reset_age(*liar_pkh, Capability::Witnessing, block_epoch + 10, 1)
+                {
+                    log::error!("Failed to reset the witnessing age of {liar_pkh}: {e}");
+                }
             }
         }
     }
-- 
2.43.0


From cbe5d10e032dedb855dadd4c7871a4da8aa60c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:12 +0000
Subject: [PATCH 71/73] fix: migrate a stored chain state of version 4 whatever
 protocol versions it registered

The migration to version 5 removed as many bytes as an empty protocol info
takes, so a state with registered protocol versions could not be read (or
was read wrongly) afterwards. Likewise, it removed them from a state
without chain info, which has none.
---
 node/src/storage_mngr/node_migrations.rs | 37 +++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/node/src/storage_mngr/node_migrations.rs b/node/src/storage_mngr/node_migrations.rs
index 31319b1..ced9123 100644
--- a/node/src/storage_mngr/node_migrations.rs
+++ b/node/src/storage_mngr/node_migrations.rs
@@ -68,11 +68,19 @@ fn migrate_chain_state_v3_to_v4(old_chain_state_bytes: &[u8]) -> Vec<u8> {
     let stakes = StakesTracker::default();
     let stakes_bytes = serialize(&stakes).unwrap();
 
+    // The protocol info is the first field of ChainInfo, which comes after the tag of an Option
+    let (chain_info_tag, rest) = split_chain_info_tag(old_chain_state_bytes);
+    let protocol_info_bytes = if chain_info_tag == [1] {
+        &protocol_info_bytes[..]
+    } else {
+        &[]
+    };
+
     [
         &db_version_bytes,
-        &old_chain_state_bytes[4..5],
-        &protocol_info_bytes,
-        &old_chain_state_bytes[5..],
+        chain_info_tag,
+        protocol_info_bytes,
+        rest,
         &stakes_bytes,
     ]
     .concat()
@@ -83,17 +91,32 @@ fn migrate_chain_state_v4_to_v5(old_chain_state_bytes: &[u8]) -> Vec<u8> {
     let db_version_bytes = db_version.to_le_bytes();
 
     // Removal of fields in ChainState v5:
-    let protocol_info = ProtocolInfo::default();
-    let protocol_info_bytes = serialize(&protocol_info).unwrap();
+    // The size of the protocol info depends on how many protocol versions were registered
+    let (chain_info_tag, rest) = split_chain_info_tag(old_chain_state_bytes);
+    let protocol_info_len = if chain_info_tag == [1] {
+        let protocol_info: ProtocolInfo = deserialize(rest).unwrap_or_default();
+        serialize(&protocol_info).unwrap().len()
+    } else {
+        0
+    };
 
     [
         &db_version_bytes,
-        &old_chain_state_bytes[4..5],
-        &old_chain_state_bytes[5 + protocol_info_bytes.len()..],
+        chain_info_tag,
+        rest.get(protocol_info_len..).unwrap_or_default(),
     ]
     .concat()
 }
 
+// Split the serialization of a versioned ChainState into the tag of its first field, which is an
+// Option<ChainInfo>, and everything that comes after it, leaving out the db_version.
+fn split_chain_info_tag(chain_state_bytes: &[u8]) -> (&[u8], &[u8]) {
+    (
+        chain_state_bytes.get(4..5).unwrap_or_default(),
+        chain_state_bytes.get(5..).unwrap_or_default(),
+    )
+}
+
 fn migrate_chain_state(mut bytes: Vec<u8>) -> Result<ChainState, anyhow::Error> {
     loop {
         let version = check_chain_state_version(&bytes);
-- 
2.43.0


From fe28b76d46b410a8b7d69fc467c2be2c51d6c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:02 +0000
Subject: [PATCH 72/73] fix: keep the state a query is set to in the bridge's
 database

Setting the state of a query the database already had stored it as finished,
whatever the state was: dismissed queries were counted as finished.
---
 bridges/centralized-ethereum/src/actors/dr_database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bridges/centralized-ethereum/src/actors/dr_database.rs b/bridges/centralized-ethereum/src/actors/dr_database.rs
index 2f8ad24..43ca039 100644
--- a/bridges/centralized-ethereum/src/actors/dr_database.rs
+++ b/bridges/centralized-ethereum/src/actors/dr_database.rs
@@ -258,7 +258,7 @@ impl Handler<SetDrState> for DrDatabase {
         let SetDrState { dr_id, dr_state } = msg;
         match self.dr.entry(dr_id) {
             Entry::Occupied(entry) => {
-                entry.into_mut().dr_state = DrState::Finished;
+                entry.into_mut().dr_state = dr_state;
                 log::debug!("Data request #{dr_id} updated to state {dr_state}",);
             }
             Entry::Vacant(entry) => {
-- 
2.43.0


From 12ee5fa34bcac64336fe643b300e5a098571b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:02 +0000
Subject: [PATCH 73/73] fix: do not skip the last query of a batch when the
 bridge has many to read

A batch had one query less than its size, and the next one started after it:
with more new queries than fit in one batch, the last of each was never read.
---
 bridges/centralized-ethereum/src/actors/eth_poller.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bridges/centralized-ethereum/src/actors/eth_poller.rs b/bridges/centralized-ethereum/src/actors/eth_poller.rs
index e61171f..649911f 100644
--- a/bridges/centralized-ethereum/src/actors/eth_poller.rs
+++ b/bridges/centralized-ethereum/src/actors/eth_poller.rs
@@ -112,9 +112,10 @@ impl EthPoller {
                 }
                 while last_dr_id + 1 < next_dr_id {
                     let init_index = usize::try_from(last_dr_id + 1).unwrap();
-                    let last_index = match next_dr_id.cmp(&(last_dr_id + max_batch_size)) {
+                    // The last index is not part of the batch
+                    let last_index = match next_dr_id.cmp(&(last_dr_id + max_batch_size + 1)) {
                         std::cmp::Ordering::Greater => {
-                            usize::try_from(last_dr_id + max_batch_size).unwrap()
+                            usize::try_from(last_dr_id + max_batch_size + 1).unwrap()
                         }
                         _ => usize::try_from(next_dr_id).unwrap(),
                     };
-- 
2.43.0

