From 763e61c5d26c27765c19fe912a3fe42157a59dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 01/29] fix: emit chain_unfrozen when a chain is unfrozen

unfreeze_chain announced a chain_frozen event, so observers saw a freeze
where the admin lifted one.
---
 contracts/connection-router/src/contract/execute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/connection-router/src/contract/execute.rs b/contracts/connection-router/src/contract/execute.rs
index 25745f5..812b31b 100644
--- a/contracts/connection-router/src/contract/execute.rs
+++ b/contracts/connection-router/src/contract/execute.rs
@@ -6,7 +6,9 @@ use itertools::Itertools;
 
 use axelar_wasm_std::flagset::FlagSet;
 
-use crate::events::{ChainFrozen, ChainRegistered, GatewayInfo, GatewayUpgraded, MessageRouted};
+use crate::events::{
+    ChainFrozen, ChainRegistered, ChainUnfrozen, GatewayInfo, GatewayUpgraded, MessageRouted,
+};
 use crate::msg::ExecuteMsg;
 use crate::state::{
     chain_endpoints, ChainEndpoint, ChainName, Gateway, GatewayDirection, Message, Store, CONFIG,
@@ -100,7 +102,7 @@ pub fn unfreeze_chain(
             Ok(chain)
         }
     })?;
-    Ok(Response::new().add_event(ChainFrozen { name: chain }.into()))
+    Ok(Response::new().add_event(ChainUnfrozen { name: chain }.into()))
 }
 
 pub fn require_admin(deps: &DepsMut, info: MessageInfo) -> Result<(), ContractError> {
-- 
2.43.0


From 28302e6075754a92309fc4c2c38c02887d381a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 02/29] fix: reject message ids with a non-canonical event
 index

"<tx>:1", "<tx>:+1" and "<tx>:01" were all accepted and refer to the same source event,
so one event could be verified under several message ids.
---
 contracts/voting-verifier/src/events.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/contracts/voting-verifier/src/events.rs b/contracts/voting-verifier/src/events.rs
index a65a5cb..d0769f6 100644
--- a/contracts/voting-verifier/src/events.rs
+++ b/contracts/voting-verifier/src/events.rs
@@ -168,12 +168,16 @@ fn parse_message_id(
         return Err(ContractError::InvalidMessageID(message_id.to_string()));
     }
 
-    Ok((
-        components[0].try_into()?,
-        components[1]
-            .parse::<u64>()
-            .map_err(|_| ContractError::InvalidMessageID(message_id.to_string()))?,
-    ))
+    let index = components[1]
+        .parse::<u64>()
+        .map_err(|_| ContractError::InvalidMessageID(message_id.to_string()))?;
+
+    // parsing accepts a leading plus sign and leading zeros, but different ids must never refer to the same event
+    if index.to_string() != components[1] {
+        return Err(ContractError::InvalidMessageID(message_id.to_string()));
+    }
+
+    Ok((components[0].try_into()?, index))
 }
 
 pub struct Voted {
-- 
2.43.0


From 6e7a8c12cadd1305282c5bec425540f71af9e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 03/29] fix: do not overflow when a signing session's grace
 period is very long

completed_at + grace_period panicked for a grace period near u64::MAX, which rejected every late
signature although it was within the grace period.
---
 contracts/multisig/src/signing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/multisig/src/signing.rs b/contracts/multisig/src/signing.rs
index 9ce2b7e..65b3d97 100644
--- a/contracts/multisig/src/signing.rs
+++ b/contracts/multisig/src/signing.rs
@@ -52,7 +52,7 @@ pub fn validate_session_signature(
     grace_period: u64,
     block_height: u64,
 ) -> Result<(), ContractError> {
-    if matches!(session.state, MultisigState::Completed { completed_at } if completed_at + grace_period < block_height)
+    if matches!(session.state, MultisigState::Completed { completed_at } if completed_at.saturating_add(grace_period) < block_height)
     {
         return Err(ContractError::SigningSessionClosed {
             session_id: session.id,
-- 
2.43.0


From 1260d5a08551638d807abfcd339b46007be5c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:19 +0000
Subject: [PATCH 04/29] fix: respect the epoch limit of a rewards distribution
 at its extremes

A limit of 0 still distributed epoch 0, and a limit near u64::MAX panicked with an overflow.
---
 contracts/rewards/src/contract/execute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/rewards/src/contract/execute.rs b/contracts/rewards/src/contract/execute.rs
index d89d0ed..f130191 100644
--- a/contracts/rewards/src/contract/execute.rs
+++ b/contracts/rewards/src/contract/execute.rs
@@ -130,11 +130,11 @@ where
             .map_or(0, |last_processed| last_processed + 1);
 
         let to = std::cmp::min(
-            (from + epoch_process_limit).saturating_sub(1), // for process limit =1 "from" and "to" must be equal
+            from.saturating_add(epoch_process_limit).saturating_sub(1), // for process limit =1 "from" and "to" must be equal
             cur_epoch.epoch_num.saturating_sub(EPOCH_PAYOUT_DELAY),
         );
 
-        if to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
+        if epoch_process_limit == 0 || to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
             return Err(ContractError::NoRewardsToDistribute.into());
         }
 
-- 
2.43.0


From 595de1ba1af5900ba97d5dfbd7ae5e7780adcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 05/29] fix: accept a very long epoch duration in a rewards
 parameter update

Adding it to the start of the epoch overflowed, so that governance could not set a duration that
instantiation accepts.
---
 contracts/rewards/src/contract/execute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/rewards/src/contract/execute.rs b/contracts/rewards/src/contract/execute.rs
index f130191..355e0b8 100644
--- a/contracts/rewards/src/contract/execute.rs
+++ b/contracts/rewards/src/contract/execute.rs
@@ -196,8 +196,10 @@ where
         // (i.e. we are in epoch 0, which started at block 0 and epoch duration is 1000. At epoch 500, the params
         // are updated to shorten the epoch duration to 100 blocks. We set the epoch number to 1, to prevent skipping
         // epochs 1-4, and so all events prior to the start of epoch 1 have an epoch number of 0)
-        let should_end =
-            cur_epoch.block_height_started + u64::from(new_params.epoch_duration) < block_height;
+        let should_end = cur_epoch
+            .block_height_started
+            .saturating_add(new_params.epoch_duration.into())
+            < block_height;
         let cur_epoch = if should_end {
             Epoch {
                 block_height_started: block_height,
-- 
2.43.0


From fea8b7f9809bb29ef48bb6dd20bdd0a69023aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 06/29] fix: query workers by service name and address in the
 right order

---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 9fa129e..07775b4 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -337,7 +337,7 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> Result<Binary, ContractErr
         QueryMsg::GetWorker {
             service_name,
             worker,
-        } => to_binary(&query::get_worker(deps, worker, service_name)?).map_err(|err| err.into()),
+        } => to_binary(&query::get_worker(deps, service_name, worker)?).map_err(|err| err.into()),
         QueryMsg::GetService { service_name } => {
             to_binary(&query::get_service(deps, service_name)?).map_err(|err| err.into())
         }
-- 
2.43.0


From 86e85504634dc53797bd181bd69c7b84176fa7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 07/29] fix: reject bonds that include coins of another
 denomination

---
 contracts/service-registry/src/contract.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 07775b4..0ff0959 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -205,14 +205,10 @@ pub mod execute {
             .may_load(deps.storage, &service_name)?
             .ok_or(ContractError::ServiceNotFound)?;
 
-        let bond = if !info.funds.is_empty() {
-            info.funds
-                .iter()
-                .find(|coin| coin.denom == service.bond_denom)
-                .ok_or(ContractError::WrongDenom)?
-                .amount
-        } else {
-            Uint128::zero() // sender can rebond currently unbonding funds by just sending no new funds
+        let bond = match info.funds.as_slice() {
+            [] => Uint128::zero(), // sender can rebond currently unbonding funds by just sending no new funds
+            [coin] if coin.denom == service.bond_denom => coin.amount,
+            _ => return Err(ContractError::WrongDenom), // coins of any other denom could not be claimed back
         };
 
         WORKERS.update(
-- 
2.43.0


From 2f96c2373534e3413a1b35b9b7800bd2312e2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 08/29] fix: reject an empty bond of an unknown worker

---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 0ff0959..8eadec8 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -222,7 +222,7 @@ pub mod execute {
                     }),
                     None => Ok(Worker {
                         address: info.sender,
-                        bonding_state: BondingState::Bonded { amount: bond },
+                        bonding_state: BondingState::Unbonded.add_bond(bond)?,
                         authorization_state: AuthorizationState::NotAuthorized,
                         service_name,
                     }),
-- 
2.43.0


From c8ee3abfaa863911e7fe189275084ee4390e29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 09/29] fix: route a message to nexus once even if a batch
 repeats it

---
 .../nexus-gateway/src/contract/execute.rs     | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/contracts/nexus-gateway/src/contract/execute.rs b/contracts/nexus-gateway/src/contract/execute.rs
index c848d6e..7131339 100644
--- a/contracts/nexus-gateway/src/contract/execute.rs
+++ b/contracts/nexus-gateway/src/contract/execute.rs
@@ -1,3 +1,4 @@
+use connection_router::state::CrossChainId;
 use cosmwasm_std::{to_binary, Addr, Response, WasmMsg};
 use error_stack::report;
 
@@ -49,20 +50,28 @@ where
 
         let msgs = msgs
             .into_iter()
-            .filter_map(|msg| match self.store.is_message_routed(&msg.cc_id) {
-                Ok(true) => None,
-                Ok(false) => Some(Ok(msg)),
+            .filter_map(|msg| match self.route_once(&msg.cc_id) {
+                Ok(true) => Some(Ok(msg)),
+                Ok(false) => None,
                 Err(err) => Some(Err(err)),
             })
             .collect::<Result<Vec<_>>>()?;
 
-        msgs.iter()
-            .try_for_each(|msg| self.store.set_message_routed(&msg.cc_id))?;
-
         let msgs: Vec<nexus::Message> = msgs.into_iter().map(Into::into).collect();
 
         Ok(Response::new().add_messages(msgs))
     }
+
+    // marks the message as routed, returns false if it has been routed before
+    fn route_once(&mut self, id: &CrossChainId) -> Result<bool> {
+        if self.store.is_message_routed(id)? {
+            return Ok(false);
+        }
+
+        self.store.set_message_routed(id)?;
+
+        Ok(true)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From b6de065a6aaf8a9ab085131bf8a30d13254ebf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 10/29] fix: return the verification statuses from the
 aggregate verifier query

---
 contracts/aggregate-verifier/src/contract.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index 09b1b0a..f6d8e26 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -99,10 +99,12 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> StdResult<Binary> {
     match msg {
         QueryMsg::IsVerified { messages } => {
             let verifier = CONFIG.load(deps.storage)?.verifier;
-            deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
-                contract_addr: verifier.to_string(),
-                msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
-            }))
+            let statuses: Vec<(CrossChainId, bool)> =
+                deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
+                    contract_addr: verifier.to_string(),
+                    msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
+                }))?;
+            to_binary(&statuses)
         }
     }
 }
-- 
2.43.0


From 928eb179d5b4c6a2ca54c735f91910b6cd176485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 11/29] fix: let a batch succeed when its optional messages
 succeed

---
 contracts/batching/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/batching/src/contract.rs b/contracts/batching/src/contract.rs
index 6db8923..20dc495 100644
--- a/contracts/batching/src/contract.rs
+++ b/contracts/batching/src/contract.rs
@@ -32,7 +32,9 @@ pub fn execute(
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn reply(_: DepsMut, _: Env, msg: Reply) -> StdResult<Response> {
     let response = match msg.result {
-        SubMsgResult::Ok(res) => Response::default().add_events(res.events),
+        // the events of the message are already part of the transaction and contain reserved
+        // attributes that must not be emitted again
+        SubMsgResult::Ok(_) => Response::default(),
         SubMsgResult::Err(err) => Response::default()
             .add_event(Event::new("failed_msg").add_attribute(msg.id.to_string(), err)),
     };
-- 
2.43.0


From b03839bf54a7804ac53284c83c01e72b8c12c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 12/29] fix: include high-S signatures in proofs in their low-S
 form

---
 contracts/multisig/src/key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/multisig/src/key.rs b/contracts/multisig/src/key.rs
index ab3b145..9e4a649 100644
--- a/contracts/multisig/src/key.rs
+++ b/contracts/multisig/src/key.rs
@@ -40,6 +40,9 @@ impl NonRecoverable {
             }
         })?;
 
+        // recovery (and verification on the destination chains) requires the low-S form
+        let sig = sig.normalize_s().unwrap_or(sig);
+
         let recovery_byte = k256::ecdsa::VerifyingKey::from_sec1_bytes(pub_key.as_ref())
             .and_then(|k| k256::ecdsa::RecoveryId::trial_recovery_from_prehash(&k, msg, &sig))
             .map_err(|err| ContractError::InvalidSignatureFormat {
-- 
2.43.0


From 2365caa05b6992d978080607b63e3d836ee56d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 13/29] fix: derive different batch ids for different sets of
 message ids

---
 contracts/multisig-prover/src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/multisig-prover/src/types.rs b/contracts/multisig-prover/src/types.rs
index 390ec18..8902754 100644
--- a/contracts/multisig-prover/src/types.rs
+++ b/contracts/multisig-prover/src/types.rs
@@ -73,7 +73,8 @@ impl BatchId {
     pub fn new(message_ids: &[CrossChainId], new_worker_set: Option<WorkerSet>) -> BatchId {
         let mut message_ids = message_ids
             .iter()
-            .map(|id| id.to_string())
+            // hash the ids so that no id can contain the separator
+            .map(|id| HexBinary::from(Keccak256::digest(id.to_string()).as_slice()).to_hex())
             .collect::<Vec<_>>();
         message_ids.sort();
 
-- 
2.43.0


From 5ecd5f1053a00dd51d687206558ccd30ea925bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 14/29] fix: do not replace the batch of an earlier session
 when a proof with a rotation is requested again

---
 contracts/multisig-prover/src/execute.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/multisig-prover/src/execute.rs b/contracts/multisig-prover/src/execute.rs
index 3fe06fe..32c9d98 100644
--- a/contracts/multisig-prover/src/execute.rs
+++ b/contracts/multisig-prover/src/execute.rs
@@ -48,9 +48,14 @@ pub fn construct_proof(
             }
             let batch = builder.build()?;
 
-            COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
-
-            batch
+            // earlier sessions might refer to this batch already, so it must not be replaced
+            match COMMANDS_BATCH.may_load(deps.storage, &batch.id)? {
+                Some(batch) => batch,
+                None => {
+                    COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
+                    batch
+                }
+            }
         }
     };
 
-- 
2.43.0


From b26d4cc8965cbe9ae79946fe2aa7884e40b8aec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:25 +0000
Subject: [PATCH 15/29] fix: reject zero when deserializing non-zero numbers
 and timestamps

---
 packages/axelar-wasm-std/src/nonempty/timestamp.rs | 1 +
 packages/axelar-wasm-std/src/nonempty/uint.rs      | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/packages/axelar-wasm-std/src/nonempty/timestamp.rs b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
index 2501f8c..b984685 100644
--- a/packages/axelar-wasm-std/src/nonempty/timestamp.rs
+++ b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
@@ -2,6 +2,7 @@ use crate::nonempty::Error;
 use cosmwasm_schema::cw_serde;
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Timestamp")]
 pub struct Timestamp(cosmwasm_std::Timestamp);
 
 impl TryFrom<cosmwasm_std::Timestamp> for Timestamp {
diff --git a/packages/axelar-wasm-std/src/nonempty/uint.rs b/packages/axelar-wasm-std/src/nonempty/uint.rs
index 862c782..07320e0 100644
--- a/packages/axelar-wasm-std/src/nonempty/uint.rs
+++ b/packages/axelar-wasm-std/src/nonempty/uint.rs
@@ -49,6 +49,8 @@ impl fmt::Display for Uint64 {
 
 // TODO: consider using macro for these types
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint256")]
+#[serde(into = "cosmwasm_std::Uint256")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint256(cosmwasm_std::Uint256);
 
@@ -89,6 +91,8 @@ impl AsRef<cosmwasm_std::Uint256> for Uint256 {
 }
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint128")]
+#[serde(into = "cosmwasm_std::Uint128")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint128(cosmwasm_std::Uint128);
 
-- 
2.43.0


From 5c520d48a6615f6e13fbeacb6209d46e3c86d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:25 +0000
Subject: [PATCH 16/29] fix: decode stored key types and batch ids from the
 bytes they are stored as

---
 contracts/multisig-prover/src/types.rs |  4 ++--
 contracts/multisig/src/key.rs          | 11 +++++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/contracts/multisig-prover/src/types.rs b/contracts/multisig-prover/src/types.rs
index 8902754..d0b0444 100644
--- a/contracts/multisig-prover/src/types.rs
+++ b/contracts/multisig-prover/src/types.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 use axelar_wasm_std::{Participant, Snapshot};
 use connection_router::state::CrossChainId;
 use cosmwasm_schema::cw_serde;
-use cosmwasm_std::{from_binary, HexBinary, StdResult, Uint256};
+use cosmwasm_std::{HexBinary, StdResult, Uint256};
 use cw_storage_plus::{Key, KeyDeserialize, PrimaryKey};
 use multisig::{
     key::{PublicKey, Signature},
@@ -65,7 +65,7 @@ impl KeyDeserialize for BatchId {
     type Output = BatchId;
 
     fn from_vec(value: Vec<u8>) -> StdResult<Self::Output> {
-        Ok(from_binary(&value.into()).expect("violated invariant: BatchID is not deserializable"))
+        Ok(value.as_slice().into())
     }
 }
 
diff --git a/contracts/multisig/src/key.rs b/contracts/multisig/src/key.rs
index 9e4a649..82add10 100644
--- a/contracts/multisig/src/key.rs
+++ b/contracts/multisig/src/key.rs
@@ -201,12 +201,11 @@ impl KeyDeserialize for KeyType {
     type Output = Self;
 
     fn from_vec(value: Vec<u8>) -> StdResult<Self::Output> {
-        serde_json::from_slice(value.as_slice()).map_err(|err| StdError::ParseErr {
-            target_type: "KeyType".into(),
-            msg: err.to_string(),
-            #[cfg(feature = "backtraces")]
-            backtrace: std::backtrace::Backtrace::capture(),
-        })
+        match value.as_slice() {
+            [key_type] if *key_type == KeyType::Ecdsa as u8 => Ok(KeyType::Ecdsa),
+            [key_type] if *key_type == KeyType::Ed25519 as u8 => Ok(KeyType::Ed25519),
+            _ => Err(StdError::parse_err("KeyType", "unknown key type")),
+        }
     }
 }
 
-- 
2.43.0


From e200b8658f08e27997f08ae6623299379df4543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 17/29] fix: accept the response of the voting verifier in the
 aggregate verifier

---
 contracts/aggregate-verifier/src/contract.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index f6d8e26..8a84d27 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -77,8 +77,10 @@ pub fn reply(
 ) -> Result<Response, axelar_wasm_std::ContractError> {
     match parse_reply_execute_data(reply) {
         Ok(MsgExecuteContractResponse { data: Some(data) }) => {
-            // check format of data
-            let _: Vec<(CrossChainId, bool)> = from_binary(&data)?;
+            // check format of data. The voting verifier wraps the list of statuses
+            if from_binary::<voting_msg::VerifyMessagesResponse>(&data).is_err() {
+                let _: Vec<(CrossChainId, bool)> = from_binary(&data)?;
+            }
 
             // only one verifier, so just return the response as is
             Ok(Response::new().set_data(data))
-- 
2.43.0


From fa7d3259c121241bbb90a2baccc6868a7fe3b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 18/29] fix: ignore events of other contracts in ampd before
 reading them

---
 ampd/src/handlers/evm_verify_msg.rs        | 12 +++++-------
 ampd/src/handlers/evm_verify_worker_set.rs | 12 +++++-------
 ampd/src/handlers/multisig.rs              | 12 +++++-------
 ampd/src/handlers/sui_verify_msg.rs        | 12 +++++-------
 ampd/src/handlers/sui_verify_worker_set.rs | 12 +++++-------
 packages/events/src/event.rs               | 11 +++++++++++
 6 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index e0d6643..87990b8 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -41,8 +41,6 @@ pub struct Message {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-messages_poll_started")]
 struct PollStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     poll_id: PollId,
     source_chain: connection_router::state::ChainName,
     source_gateway_address: EVMAddress,
@@ -151,8 +149,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &events::Event) -> Result<()> {
+        // events of other contracts are not necessarily well-formed
+        if !event.is_from_contract(&self.voting_verifier.to_string()) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
-            contract_address,
             poll_id,
             source_chain,
             source_gateway_address,
@@ -167,10 +169,6 @@ where
             event => event.change_context(DeserializeEvent)?,
         };
 
-        if self.voting_verifier != contract_address {
-            return Ok(());
-        }
-
         if self.chain != source_chain {
             return Ok(());
         }
diff --git a/ampd/src/handlers/evm_verify_worker_set.rs b/ampd/src/handlers/evm_verify_worker_set.rs
index 318829f..455da08 100644
--- a/ampd/src/handlers/evm_verify_worker_set.rs
+++ b/ampd/src/handlers/evm_verify_worker_set.rs
@@ -41,8 +41,6 @@ pub struct WorkerSetConfirmation {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-worker_set_poll_started")]
 struct PollStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     worker_set: WorkerSetConfirmation,
     poll_id: PollId,
     source_chain: connection_router::state::ChainName,
@@ -147,8 +145,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &events::Event) -> Result<()> {
+        // events of other contracts are not necessarily well-formed
+        if !event.is_from_contract(&self.voting_verifier.to_string()) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
-            contract_address,
             poll_id,
             source_chain,
             source_gateway_address,
@@ -163,10 +165,6 @@ where
             event => event.change_context(Error::DeserializeEvent)?,
         };
 
-        if self.voting_verifier != contract_address {
-            return Ok(());
-        }
-
         if self.chain != source_chain {
             return Ok(());
         }
diff --git a/ampd/src/handlers/multisig.rs b/ampd/src/handlers/multisig.rs
index 8c1d469..d016fcc 100644
--- a/ampd/src/handlers/multisig.rs
+++ b/ampd/src/handlers/multisig.rs
@@ -27,8 +27,6 @@ use crate::types::TMAddress;
 #[derive(Debug, Deserialize)]
 #[try_from("wasm-signing_started")]
 struct SigningStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     session_id: u64,
     #[serde(deserialize_with = "deserialize_public_keys")]
     pub_keys: HashMap<TMAddress, PublicKey>,
@@ -127,8 +125,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &events::Event) -> error_stack::Result<(), Error> {
+        // events of other contracts are not necessarily well-formed
+        if !event.is_from_contract(&self.multisig.to_string()) {
+            return Ok(());
+        }
+
         let SigningStartedEvent {
-            contract_address,
             session_id,
             pub_keys,
             msg,
@@ -139,10 +141,6 @@ where
             result => result.change_context(DeserializeEvent)?,
         };
 
-        if self.multisig != contract_address {
-            return Ok(());
-        }
-
         info!(
             session_id = session_id,
             msg = encode(&msg),
diff --git a/ampd/src/handlers/sui_verify_msg.rs b/ampd/src/handlers/sui_verify_msg.rs
index 34ab996..b5c8afb 100644
--- a/ampd/src/handlers/sui_verify_msg.rs
+++ b/ampd/src/handlers/sui_verify_msg.rs
@@ -35,8 +35,6 @@ pub struct Message {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-messages_poll_started")]
 struct PollStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     poll_id: PollId,
     source_gateway_address: SuiAddress,
     messages: Vec<Message>,
@@ -102,8 +100,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &Event) -> Result<()> {
+        // events of other contracts are not necessarily well-formed
+        if !event.is_from_contract(&self.voting_verifier.to_string()) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
-            contract_address,
             poll_id,
             source_gateway_address,
             messages,
@@ -117,10 +119,6 @@ where
             event => event.change_context(Error::DeserializeEvent)?,
         };
 
-        if self.voting_verifier != contract_address {
-            return Ok(());
-        }
-
         if !participants.contains(&self.worker) {
             return Ok(());
         }
diff --git a/ampd/src/handlers/sui_verify_worker_set.rs b/ampd/src/handlers/sui_verify_worker_set.rs
index 9adeed3..2dbb1b6 100644
--- a/ampd/src/handlers/sui_verify_worker_set.rs
+++ b/ampd/src/handlers/sui_verify_worker_set.rs
@@ -40,8 +40,6 @@ pub struct WorkerSetConfirmation {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-worker_set_poll_started")]
 struct PollStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     poll_id: PollId,
     source_gateway_address: SuiAddress,
     worker_set: WorkerSetConfirmation,
@@ -110,8 +108,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &Event) -> error_stack::Result<(), Error> {
+        // events of other contracts are not necessarily well-formed
+        if !event.is_from_contract(&self.voting_verifier.to_string()) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
-            contract_address,
             poll_id,
             source_gateway_address,
             worker_set,
@@ -125,10 +127,6 @@ where
             event => event.change_context(Error::DeserializeEvent)?,
         };
 
-        if self.voting_verifier != contract_address {
-            return Ok(());
-        }
-
         if !participants.contains(&self.worker) {
             return Ok(());
         }
diff --git a/packages/events/src/event.rs b/packages/events/src/event.rs
index 4e8f94d..f6bb6cb 100644
--- a/packages/events/src/event.rs
+++ b/packages/events/src/event.rs
@@ -27,6 +27,17 @@ impl Event {
     pub fn block_end(height: impl Into<block::Height>) -> Self {
         Event::BlockEnd(height.into())
     }
+
+    /// Returns true if the event was emitted by the given contract
+    pub fn is_from_contract(&self, contract_address: &str) -> bool {
+        match self {
+            Event::Abci { attributes, .. } => attributes
+                .get("_contract_address")
+                .and_then(Value::as_str)
+                .map_or(false, |address| address == contract_address),
+            _ => false,
+        }
+    }
 }
 
 impl TryFrom<abci::Event> for Event {
-- 
2.43.0


From ee73eb085fe99f3585e99e2caac4083c70ca8005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 19/29] fix: vote not found in ampd for messages and worker
 sets that cannot exist on the source chain

---
 ampd/src/handlers/evm_verify_msg.rs        | 16 +++++++++++-----
 ampd/src/handlers/evm_verify_worker_set.rs | 16 ++++++++++++++--
 ampd/src/handlers/mod.rs                   | 18 ++++++++++++++++++
 ampd/src/handlers/sui_verify_msg.rs        | 15 ++++++++++-----
 ampd/src/handlers/sui_verify_worker_set.rs | 16 ++++++++++++++--
 5 files changed, 67 insertions(+), 14 deletions(-)

diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index 87990b8..6a071a5 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -23,6 +23,7 @@ use crate::evm::verifier::verify_message;
 use crate::evm::ChainName;
 use crate::handlers::errors::Error;
 use crate::handlers::errors::Error::DeserializeEvent;
+use crate::handlers::SourceChainData;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::types::{EVMAddress, Hash, TMAddress};
 
@@ -46,7 +47,7 @@ struct PollStartedEvent {
     source_gateway_address: EVMAddress,
     confirmation_height: u64,
     expires_at: u64,
-    messages: Vec<Message>,
+    messages: Vec<SourceChainData<Message>>,
     participants: Vec<TMAddress>,
 }
 
@@ -183,7 +184,11 @@ where
             return Ok(());
         }
 
-        let tx_hashes: HashSet<_> = messages.iter().map(|message| message.tx_id).collect();
+        let tx_hashes: HashSet<_> = messages
+            .iter()
+            .filter_map(SourceChainData::valid)
+            .map(|message| message.tx_id)
+            .collect();
         let finalized_tx_receipts = self
             .finalized_tx_receipts(tx_hashes, confirmation_height)
             .await?;
@@ -192,6 +197,7 @@ where
         let source_chain_str: String = source_chain.into();
         let message_ids = messages
             .iter()
+            .filter_map(SourceChainData::valid)
             .map(|message| {
                 format!(
                     "0x{:x}{}{}",
@@ -211,9 +217,9 @@ where
             let votes: Vec<_> = messages
                 .iter()
                 .map(|msg| {
-                    finalized_tx_receipts
-                        .get(&msg.tx_id)
-                        .map_or(Vote::NotFound, |tx_receipt| {
+                    msg.valid()
+                        .and_then(|msg| finalized_tx_receipts.get(&msg.tx_id).zip(Some(msg)))
+                        .map_or(Vote::NotFound, |(tx_receipt, msg)| {
                             verify_message(&source_gateway_address, tx_receipt, msg)
                         })
                 })
diff --git a/ampd/src/handlers/evm_verify_worker_set.rs b/ampd/src/handlers/evm_verify_worker_set.rs
index 455da08..2b25623 100644
--- a/ampd/src/handlers/evm_verify_worker_set.rs
+++ b/ampd/src/handlers/evm_verify_worker_set.rs
@@ -20,6 +20,7 @@ use crate::event_processor::EventHandler;
 use crate::evm::verifier::verify_worker_set;
 use crate::evm::{json_rpc::EthereumClient, ChainName};
 use crate::handlers::errors::Error;
+use crate::handlers::SourceChainData;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::types::{EVMAddress, Hash, TMAddress, U256};
 
@@ -41,7 +42,7 @@ pub struct WorkerSetConfirmation {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-worker_set_poll_started")]
 struct PollStartedEvent {
-    worker_set: WorkerSetConfirmation,
+    worker_set: SourceChainData<WorkerSetConfirmation>,
     poll_id: PollId,
     source_chain: connection_router::state::ChainName,
     source_gateway_address: EVMAddress,
@@ -179,6 +180,17 @@ where
             return Ok(());
         }
 
+        let worker_set = match worker_set.valid() {
+            Some(worker_set) => worker_set,
+            None => {
+                info!(
+                    poll_id = poll_id.to_string(),
+                    "worker set cannot exist on the source chain"
+                );
+                return self.broadcast_vote(poll_id, Vote::NotFound).await;
+            }
+        };
+
         let tx_receipt = self
             .finalized_tx_receipt(worker_set.tx_id, confirmation_height)
             .await?;
@@ -195,7 +207,7 @@ where
             info!("ready to verify a new worker set in poll");
 
             let vote = tx_receipt.map_or(Vote::NotFound, |tx_receipt| {
-                verify_worker_set(&source_gateway_address, &tx_receipt, &worker_set)
+                verify_worker_set(&source_gateway_address, &tx_receipt, worker_set)
             });
             info!(
                 vote = vote.as_value(),
diff --git a/ampd/src/handlers/mod.rs b/ampd/src/handlers/mod.rs
index e87db65..067fb82 100644
--- a/ampd/src/handlers/mod.rs
+++ b/ampd/src/handlers/mod.rs
@@ -8,6 +8,24 @@ pub mod multisig;
 pub mod sui_verify_msg;
 pub mod sui_verify_worker_set;
 
+/// A part of a poll in the format of the source chain. Anyone can start polls, and the voting verifier does not know the
+/// formats of the chain, so something that cannot exist on the chain must not stop the worker: it is simply not found.
+#[derive(serde::Deserialize, Debug)]
+#[serde(untagged)]
+enum SourceChainData<T> {
+    Valid(T),
+    Invalid(serde::de::IgnoredAny),
+}
+
+impl<T> SourceChainData<T> {
+    fn valid(&self) -> Option<&T> {
+        match self {
+            SourceChainData::Valid(data) => Some(data),
+            SourceChainData::Invalid(_) => None,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::convert::TryInto;
diff --git a/ampd/src/handlers/sui_verify_msg.rs b/ampd/src/handlers/sui_verify_msg.rs
index b5c8afb..8d29476 100644
--- a/ampd/src/handlers/sui_verify_msg.rs
+++ b/ampd/src/handlers/sui_verify_msg.rs
@@ -16,6 +16,7 @@ use voting_verifier::msg::ExecuteMsg;
 
 use crate::event_processor::EventHandler;
 use crate::handlers::errors::Error;
+use crate::handlers::SourceChainData;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::sui::{json_rpc::SuiClient, verifier::verify_message};
 use crate::types::{Hash, TMAddress};
@@ -37,7 +38,7 @@ pub struct Message {
 struct PollStartedEvent {
     poll_id: PollId,
     source_gateway_address: SuiAddress,
-    messages: Vec<Message>,
+    messages: Vec<SourceChainData<Message>>,
     participants: Vec<TMAddress>,
     expires_at: u64,
 }
@@ -131,7 +132,11 @@ where
 
         // Does not assume voting verifier emits unique tx ids.
         // RPC will throw an error if the input contains any duplicate, deduplicate tx ids to avoid unnecessary failures.
-        let deduplicated_tx_ids: HashSet<_> = messages.iter().map(|msg| msg.tx_id).collect();
+        let deduplicated_tx_ids: HashSet<_> = messages
+            .iter()
+            .filter_map(SourceChainData::valid)
+            .map(|msg| msg.tx_id)
+            .collect();
         let transaction_blocks = self
             .rpc_client
             .finalized_transaction_blocks(deduplicated_tx_ids)
@@ -141,9 +146,9 @@ where
         let votes = messages
             .iter()
             .map(|msg| {
-                transaction_blocks
-                    .get(&msg.tx_id)
-                    .map_or(Vote::NotFound, |tx_block| {
+                msg.valid()
+                    .and_then(|msg| transaction_blocks.get(&msg.tx_id).zip(Some(msg)))
+                    .map_or(Vote::NotFound, |(tx_block, msg)| {
                         verify_message(&source_gateway_address, tx_block, msg)
                     })
             })
diff --git a/ampd/src/handlers/sui_verify_worker_set.rs b/ampd/src/handlers/sui_verify_worker_set.rs
index 2dbb1b6..596773e 100644
--- a/ampd/src/handlers/sui_verify_worker_set.rs
+++ b/ampd/src/handlers/sui_verify_worker_set.rs
@@ -19,6 +19,7 @@ use voting_verifier::msg::ExecuteMsg;
 
 use crate::event_processor::EventHandler;
 use crate::handlers::errors::Error;
+use crate::handlers::SourceChainData;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::sui::json_rpc::SuiClient;
 use crate::sui::verifier::verify_worker_set;
@@ -42,7 +43,7 @@ pub struct WorkerSetConfirmation {
 struct PollStartedEvent {
     poll_id: PollId,
     source_gateway_address: SuiAddress,
-    worker_set: WorkerSetConfirmation,
+    worker_set: SourceChainData<WorkerSetConfirmation>,
     participants: Vec<TMAddress>,
     expires_at: u64,
 }
@@ -137,6 +138,17 @@ where
             return Ok(());
         }
 
+        let worker_set = match worker_set.valid() {
+            Some(worker_set) => worker_set,
+            None => {
+                info!(
+                    poll_id = poll_id.to_string(),
+                    "worker set cannot exist on the source chain"
+                );
+                return self.broadcast_vote(poll_id, Vote::NotFound).await;
+            }
+        };
+
         let transaction_block = self
             .rpc_client
             .finalized_transaction_block(worker_set.tx_id)
@@ -153,7 +165,7 @@ where
         )
         .in_scope(|| {
             let vote = transaction_block.map_or(Vote::NotFound, |tx_receipt| {
-                verify_worker_set(&source_gateway_address, &tx_receipt, &worker_set)
+                verify_worker_set(&source_gateway_address, &tx_receipt, worker_set)
             });
 
             info!(
-- 
2.43.0


From 54b0dae899b3ea577ea20b7adb2d2cde8a07008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 20/29] fix: accept only the canonical form of EVM transaction
 ids in ampd

---
 ampd/src/handlers/evm_verify_msg.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index 6a071a5..2320ca2 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -6,7 +6,8 @@ use cosmrs::cosmwasm::MsgExecuteContract;
 use error_stack::ResultExt;
 use ethers::types::{TransactionReceipt, U64};
 use futures::future::join_all;
-use serde::Deserialize;
+use serde::de::Error as DeserializeError;
+use serde::{Deserialize, Deserializer};
 use tokio::sync::watch::Receiver;
 use tracing::{info, info_span};
 use valuable::Valuable;
@@ -31,6 +32,7 @@ type Result<T> = error_stack::Result<T, Error>;
 
 #[derive(Deserialize, Debug)]
 pub struct Message {
+    #[serde(deserialize_with = "deserialize_canonical_hash")]
     pub tx_id: Hash,
     pub event_index: u64,
     pub destination_address: String,
@@ -39,6 +41,21 @@ pub struct Message {
     pub payload_hash: Hash,
 }
 
+/// Messages are identified by the text of their id, so only one spelling of a hash may refer to a transaction
+fn deserialize_canonical_hash<'de, D>(deserializer: D) -> std::result::Result<Hash, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let text = String::deserialize(deserializer)?;
+    let hash: Hash = text.parse().map_err(D::Error::custom)?;
+
+    if text != format!("0x{:x}", hash) {
+        return Err(D::Error::custom("tx id is not in canonical form"));
+    }
+
+    Ok(hash)
+}
+
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-messages_poll_started")]
 struct PollStartedEvent {
-- 
2.43.0


From 4960b48a95ac413f0b27a4b3a7fd8b47a60439e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 21/29] fix: read event attributes that look like numbers as
 the text they are

---
 ampd/src/handlers/evm_verify_msg.rs        |  3 ++-
 ampd/src/handlers/evm_verify_worker_set.rs |  3 ++-
 ampd/src/handlers/mod.rs                   | 17 +++++++++++++++++
 ampd/src/handlers/multisig.rs              | 14 ++++++++++++--
 packages/events/src/event.rs               | 11 ++++++++++-
 5 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index 2320ca2..efd772e 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -24,7 +24,7 @@ use crate::evm::verifier::verify_message;
 use crate::evm::ChainName;
 use crate::handlers::errors::Error;
 use crate::handlers::errors::Error::DeserializeEvent;
-use crate::handlers::SourceChainData;
+use crate::handlers::{deserialize_text, SourceChainData};
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::types::{EVMAddress, Hash, TMAddress};
 
@@ -60,6 +60,7 @@ where
 #[try_from("wasm-messages_poll_started")]
 struct PollStartedEvent {
     poll_id: PollId,
+    #[serde(deserialize_with = "deserialize_text")]
     source_chain: connection_router::state::ChainName,
     source_gateway_address: EVMAddress,
     confirmation_height: u64,
diff --git a/ampd/src/handlers/evm_verify_worker_set.rs b/ampd/src/handlers/evm_verify_worker_set.rs
index 2b25623..3862643 100644
--- a/ampd/src/handlers/evm_verify_worker_set.rs
+++ b/ampd/src/handlers/evm_verify_worker_set.rs
@@ -20,7 +20,7 @@ use crate::event_processor::EventHandler;
 use crate::evm::verifier::verify_worker_set;
 use crate::evm::{json_rpc::EthereumClient, ChainName};
 use crate::handlers::errors::Error;
-use crate::handlers::SourceChainData;
+use crate::handlers::{deserialize_text, SourceChainData};
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::types::{EVMAddress, Hash, TMAddress, U256};
 
@@ -44,6 +44,7 @@ pub struct WorkerSetConfirmation {
 struct PollStartedEvent {
     worker_set: SourceChainData<WorkerSetConfirmation>,
     poll_id: PollId,
+    #[serde(deserialize_with = "deserialize_text")]
     source_chain: connection_router::state::ChainName,
     source_gateway_address: EVMAddress,
     expires_at: u64,
diff --git a/ampd/src/handlers/mod.rs b/ampd/src/handlers/mod.rs
index 067fb82..b68c881 100644
--- a/ampd/src/handlers/mod.rs
+++ b/ampd/src/handlers/mod.rs
@@ -26,6 +26,23 @@ impl<T> SourceChainData<T> {
     }
 }
 
+/// Reads text that is stored in an event attribute as is, where e.g. a number is not told apart from the text of a number
+fn deserialize_text<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    T: TryFrom<String>,
+    T::Error: std::fmt::Display,
+{
+    use serde::{de::Error, Deserialize};
+
+    let text = match serde_json::Value::deserialize(deserializer)? {
+        serde_json::Value::String(text) => text,
+        value => value.to_string(),
+    };
+
+    text.try_into().map_err(D::Error::custom)
+}
+
 #[cfg(test)]
 mod tests {
     use std::convert::TryInto;
diff --git a/ampd/src/handlers/multisig.rs b/ampd/src/handlers/multisig.rs
index d016fcc..94c5a82 100644
--- a/ampd/src/handlers/multisig.rs
+++ b/ampd/src/handlers/multisig.rs
@@ -6,7 +6,7 @@ use cosmrs::cosmwasm::MsgExecuteContract;
 use cosmwasm_std::{HexBinary, Uint64};
 use ecdsa::VerifyingKey;
 use error_stack::ResultExt;
-use hex::encode;
+use hex::{encode, FromHex};
 use serde::de::Error as DeserializeError;
 use serde::{Deserialize, Deserializer};
 use tracing::info;
@@ -17,6 +17,7 @@ use events_derive::try_from;
 use multisig::msg::ExecuteMsg;
 
 use crate::event_processor::EventHandler;
+use crate::handlers::deserialize_text;
 use crate::handlers::errors::Error::{self, DeserializeEvent};
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::tofnd::grpc::SharableEcdsaClient;
@@ -30,10 +31,19 @@ struct SigningStartedEvent {
     session_id: u64,
     #[serde(deserialize_with = "deserialize_public_keys")]
     pub_keys: HashMap<TMAddress, PublicKey>,
-    #[serde(with = "hex")]
+    #[serde(deserialize_with = "deserialize_digest")]
     msg: MessageDigest,
 }
 
+fn deserialize_digest<'de, D>(deserializer: D) -> Result<MessageDigest, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let text: String = deserialize_text(deserializer)?;
+
+    MessageDigest::from_hex(text).map_err(D::Error::custom)
+}
+
 fn deserialize_public_keys<'de, D>(
     deserializer: D,
 ) -> Result<HashMap<TMAddress, PublicKey>, D::Error>
diff --git a/packages/events/src/event.rs b/packages/events/src/event.rs
index f6bb6cb..2d64faa 100644
--- a/packages/events/src/event.rs
+++ b/packages/events/src/event.rs
@@ -67,11 +67,20 @@ fn try_into_kv_pair(attr: &EventAttribute) -> Result<(String, Value), Error> {
         .map(|(key, value)| {
             (
                 key,
-                serde_json::from_str(&value).unwrap_or_else(|_| value.into()),
+                serde_json::from_str(&value)
+                    .ok()
+                    .filter(|json: &Value| is_exact(json, &value))
+                    .unwrap_or_else(|| value.into()),
             )
         })
 }
 
+// Text may look like a number, such as a hash that consists of decimal digits. It can only be read
+// as one if that does not lose any part of it
+fn is_exact(json: &Value, text: &str) -> bool {
+    !json.is_number() || json.to_string() == text
+}
+
 fn decode_event_attribute(attribute: &EventAttribute) -> Result<(String, String), DecodingError> {
     Ok((
         base64_to_utf8(&attribute.key)?,
-- 
2.43.0


From e150d94474c1f8b26a28b221293110091533b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 22/29] fix: never process a block twice in ampd when the node
 falls behind

---
 ampd/src/event_sub.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ampd/src/event_sub.rs b/ampd/src/event_sub.rs
index 6305391..911e0bc 100644
--- a/ampd/src/event_sub.rs
+++ b/ampd/src/event_sub.rs
@@ -67,7 +67,7 @@ impl<T: TmClient + Sync> EventSub<T> {
         loop {
             select! {
                 _ = interval.tick() => {
-                    curr_block_height = self.process_blocks_from(curr_block_height).await?.increment();
+                    curr_block_height = self.process_blocks_from(curr_block_height).await?;
                 },
                 _ = self.token.cancelled() => {
                     info!("event sub exiting");
@@ -89,6 +89,8 @@ impl<T: TmClient + Sync> EventSub<T> {
     }
 
     // this is extracted into a function so the block height attachment can be added no matter which call fails
+    // returns the height of the first block that is not processed yet. The latest height can be lower than that when the
+    // node is behind, in which case no block must be processed again
     async fn process_blocks_from(
         &mut self,
         from: block::Height,
@@ -100,15 +102,14 @@ impl<T: TmClient + Sync> EventSub<T> {
             self.process_block(height)
                 .attach_printable(format!("{{ block_height = {height} }}"))
                 .await?;
+            height = height.increment();
 
             if self.token.is_cancelled() {
-                return Ok(height);
+                break;
             }
-
-            height = height.increment();
         }
 
-        Ok(to)
+        Ok(height)
     }
 
     async fn process_block(&self, height: block::Height) -> Result<(), EventSubError> {
-- 
2.43.0


From 9c52ebcdcc1632a8d727450b557c991862d8f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 23/29] fix: do not hide lost events in ampd while skipping to
 the start block

---
 ampd/src/event_sub.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ampd/src/event_sub.rs b/ampd/src/event_sub.rs
index 911e0bc..01ffce3 100644
--- a/ampd/src/event_sub.rs
+++ b/ampd/src/event_sub.rs
@@ -159,7 +159,12 @@ pub fn skip_to_block<E>(
     stream: impl Stream<Item = Result<Event, E>>,
     height: block::Height,
 ) -> impl Stream<Item = Result<Event, E>> {
-    stream.skip_while(move |event| !matches!(event, Ok(Event::BlockBegin(h)) if *h >= height))
+    // errors must not be skipped, otherwise the loss of events would go unnoticed
+    stream.skip_while(move |event| match event {
+        Ok(Event::BlockBegin(h)) => *h < height,
+        Ok(_) => true,
+        Err(_) => false,
+    })
 }
 
 #[derive(Error, Debug)]
-- 
2.43.0


From 488e34da6214ee2cd5f3ef7aaa08494bc8c84ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 24/29] fix: stop ampd as soon as one event handler fails

---
 ampd/src/event_processor.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ampd/src/event_processor.rs b/ampd/src/event_processor.rs
index da51e8d..5b08093 100644
--- a/ampd/src/event_processor.rs
+++ b/ampd/src/event_processor.rs
@@ -89,14 +89,14 @@ impl EventProcessor {
     }
 
     pub async fn run(self) -> Result<(), EventProcessorError> {
-        let handles = self.tasks.into_iter().map(tokio::spawn);
-
-        try_join_all(handles)
-            .await
-            .change_context(EventProcessorError::EventHandlerError)?
-            .into_iter()
-            .find(Result::is_err)
-            .unwrap_or(Ok(()))
+        let handles = self.tasks.into_iter().map(|task| async {
+            tokio::spawn(task)
+                .await
+                .change_context(EventProcessorError::EventHandlerError)?
+        });
+
+        // returns as soon as one of the handlers fails, even if the others go on forever
+        try_join_all(handles).await.map(|_| ())
     }
 }
 
-- 
2.43.0


From 3e6633759400b7bb79d3c1e6fb3f9ab3614094f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 25/29] fix: do not overflow in the proof of work finalizer of
 ampd

---
 ampd/src/evm/finalizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ampd/src/evm/finalizer.rs b/ampd/src/evm/finalizer.rs
index d10881b..29a3f83 100644
--- a/ampd/src/evm/finalizer.rs
+++ b/ampd/src/evm/finalizer.rs
@@ -80,7 +80,9 @@ where
             .await
             .change_context(Error::JsonRPC)?;
 
-        Ok(block_number - self.confirmation_height + 1)
+        Ok(block_number
+            .saturating_add(1.into())
+            .saturating_sub(self.confirmation_height))
     }
 }
 
-- 
2.43.0


From f9e78a91a21702997c34aa348d0fccf7eb2650dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 26/29] fix: register the key that the multisig handler of ampd
 signs with

---
 ampd/src/commands/register_public_key.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ampd/src/commands/register_public_key.rs b/ampd/src/commands/register_public_key.rs
index e33622a..75f6784 100644
--- a/ampd/src/commands/register_public_key.rs
+++ b/ampd/src/commands/register_public_key.rs
@@ -11,16 +11,19 @@ use report::ResultCompatExt;
 
 use crate::commands::{broadcast_tx, worker_pub_key};
 use crate::config::Config;
+use crate::tofnd;
+use crate::tofnd::grpc::{MultisigClient, SharableEcdsaClient};
 use crate::types::TMAddress;
-use crate::{handlers, Error, PREFIX};
+use crate::{handlers, types, Error, PREFIX};
 
 pub async fn run(config: Config, state_path: &Path) -> Result<Option<String>, Error> {
     let pub_key = worker_pub_key(state_path, config.tofnd_config.clone()).await?;
 
     let multisig_address = get_multisig_address(&config)?;
+    let signing_key = signing_pub_key(config.tofnd_config.clone(), &multisig_address).await?;
 
     let msg = serde_json::to_vec(&ExecuteMsg::RegisterPublicKey {
-        public_key: PublicKey::try_from((KeyType::Ecdsa, pub_key.to_bytes().into()))
+        public_key: PublicKey::try_from((KeyType::Ecdsa, signing_key.to_bytes().into()))
             .change_context(Error::Tofnd)?,
     })
     .expect("register public key msg should serialize");
@@ -42,6 +45,21 @@ pub async fn run(config: Config, state_path: &Path) -> Result<Option<String>, Er
     )))
 }
 
+// the multisig handler signs with the key that belongs to the multisig contract, not with the key of the worker's account
+async fn signing_pub_key(
+    config: tofnd::Config,
+    multisig_address: &TMAddress,
+) -> Result<types::PublicKey, Error> {
+    SharableEcdsaClient::new(
+        MultisigClient::connect(config.party_uid, config.url)
+            .await
+            .change_context(Error::Connection)?,
+    )
+    .keygen(&multisig_address.to_string())
+    .await
+    .change_context(Error::Tofnd)
+}
+
 fn get_multisig_address(config: &Config) -> Result<TMAddress, Error> {
     config
         .handlers
-- 
2.43.0


From 5c410e7e412e5d55d1a92527c1b27c2448ceecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 27/29] fix: do not start ampd from an empty state when the
 state file cannot be read

---
 ampd/src/state.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ampd/src/state.rs b/ampd/src/state.rs
index ad2e689..6c49213 100644
--- a/ampd/src/state.rs
+++ b/ampd/src/state.rs
@@ -1,5 +1,5 @@
 use std::path::Path;
-use std::{collections::HashMap, fs};
+use std::{collections::HashMap, fs, io};
 
 use error_stack::{Result, ResultExt};
 use serde::{Deserialize, Serialize};
@@ -93,10 +93,11 @@ pub fn load(path: impl AsRef<Path>) -> Result<State, Error> {
 
     match fs::read_to_string(path) {
         Ok(state) => serde_json::from_str(&state).change_context(Error::InvalidState),
-        Err(_) => {
+        Err(err) if err.kind() == io::ErrorKind::NotFound => {
             info!("state file does not exist, starting from current blockchain state");
             Ok(State::default())
         }
+        Err(err) => Err(err).change_context(Error::InvalidState),
     }
 }
 
-- 
2.43.0


From 4e9bb8ec3bb154a2bfd059f00019a907201e6efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 28/29] fix: do not lose the error of the last handler of ampd

---
 ampd/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ampd/src/lib.rs b/ampd/src/lib.rs
index 5945fa2..340018f 100644
--- a/ampd/src/lib.rs
+++ b/ampd/src/lib.rs
@@ -328,16 +328,24 @@ where
             Ok(())
         });
 
-        let execution_result = match (set.join_next().await, token.is_cancelled()) {
+        let mut execution_result = match (set.join_next().await, token.is_cancelled()) {
             (Some(result), false) => {
                 token.cancel();
                 result.unwrap_or_else(|err| Err(err).change_context(Error::Task))
             }
-            (Some(_), true) => Ok(()),
+            (Some(_), true) => {
+                while (set.join_next().await).is_some() {}
+                Ok(())
+            }
             (None, _) => panic!("all tasks exited unexpectedly"),
         };
 
-        while (set.join_next().await).is_some() {}
+        // the first task to exit might have done so only because another one failed, e.g. the state
+        // updater exits when all handlers are gone, so that error must not get lost
+        while let Some(result) = set.join_next().await {
+            execution_result = execution_result
+                .and(result.unwrap_or_else(|err| Err(err).change_context(Error::Task)));
+        }
         // assert: all tasks have exited, it is safe to receive the state
         let state = state_rx
             .try_recv()
-- 
2.43.0


From aee4d4ecff6eed195a118a90ce9ca152c02c6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 29/29] fix: do not overflow in the number of attempts to
 confirm a transaction of ampd

---
 ampd/src/broadcaster.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ampd/src/broadcaster.rs b/ampd/src/broadcaster.rs
index b6ba492..f72b4e8 100644
--- a/ampd/src/broadcaster.rs
+++ b/ampd/src/broadcaster.rs
@@ -201,7 +201,7 @@ where
     async fn confirm_tx(&mut self, tx_hash: &str) -> Result<(), Error> {
         let mut result: Result<(), Status> = Ok(());
 
-        for i in 0..self.config.tx_fetch_max_retries + 1 {
+        for i in 0..=self.config.tx_fetch_max_retries {
             if i > 0 {
                 thread::sleep(self.config.tx_fetch_interval)
             }
-- 
2.43.0

