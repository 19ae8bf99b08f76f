From e64fc90a24e0c2497ef40d20b96367775c67f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 01/30] fix: a contract account cannot be debited below its
 balance

---
 core/executor/src/native_contract/account.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/executor/src/native_contract/account.rs b/core/executor/src/native_contract/account.rs
index 8de79bf..1f848a1 100644
--- a/core/executor/src/native_contract/account.rs
+++ b/core/executor/src/native_contract/account.rs
@@ -269,12 +269,16 @@ impl<StateAdapter: ContractStateAdapter> NativeAccountContract<StateAdapter> {
         account: &mut ContractAccount,
         amount: Balance,
     ) -> ProtocolResult<()> {
-        account
-            .assets
-            .entry(id.clone())
-            .and_modify(|balance| *balance -= amount.clone())
-            .or_insert(amount);
-        Ok(())
+        if let Some(balance) = account.assets.get_mut(id) {
+            if *balance < amount {
+                return Err(NativeAccountContractError::InsufficientBalance.into());
+            }
+
+            *balance -= amount;
+            return Ok(());
+        }
+
+        Err(NativeAccountContractError::InsufficientBalance.into())
     }
 }
 
-- 
2.43.0


From 056456cbe4c71ba17bf72af5fddc99428473fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 02/30] fix: a transaction of an unknown account fails alone
 instead of aborting the block

---
 core/executor/src/native_contract/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/executor/src/native_contract/account.rs b/core/executor/src/native_contract/account.rs
index 1f848a1..de23fdf 100644
--- a/core/executor/src/native_contract/account.rs
+++ b/core/executor/src/native_contract/account.rs
@@ -110,7 +110,7 @@ impl<StateAdapter: ContractStateAdapter> AccountContract<StateAdapter>
 
     fn inc_nonce(&mut self, ictx: RcInvokeContext) -> ProtocolResult<()> {
         let caller = &ictx.borrow().caller;
-        let account = self.get_account(caller)?;
+        let account = self.find_or_create(caller)?;
 
         let modified_account = match account {
             Account::User(user) => Account::User(UserAccount {
-- 
2.43.0


From 3711604d51ab2c1c2cc90ac07676df96d8e1867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 03/30] fix: keep the nonce of every executed transaction in
 the committed state

---
 core/executor/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 53061b0..52edbf2 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -125,6 +125,7 @@ impl<DB: TrieDB> Executor for TransactionExecutor<DB> {
             };
 
             self.account_contract.inc_nonce(Rc::clone(&ictx))?;
+            self.stash()?;
 
             let receipt = Receipt {
                 state_root: Hash::from_empty(),
-- 
2.43.0


From b4605cbe5465d257fae6d38745c1aa8c5285cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 04/30] fix: an unsupported transaction yields a failed receipt
 instead of aborting the node

---
 core/executor/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 52edbf2..0f23f19 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -189,7 +189,7 @@ impl<DB: TrieDB> TransactionExecutor<DB> {
                 code,
                 contract_type,
             } => self.handle_deploy(Rc::clone(&ictx), code, contract_type)?,
-            _ => panic!("Unsupported transaction"),
+            _ => return Err(TransactionExecutorError::Unsupported.into()),
         };
 
         Ok(res)
@@ -255,7 +255,7 @@ impl<DB: TrieDB> TransactionExecutor<DB> {
                     contract_type: ContractType::Asset,
                 })
             }
-            _ => panic!("Unsupported transaction"),
+            _ => Err(TransactionExecutorError::Unsupported.into()),
         }
     }
 
@@ -406,6 +406,9 @@ fn gen_invoke_ctx(
 pub enum TransactionExecutorError {
     FromHex(hex::FromHexError),
     ParseInt(ParseIntError),
+
+    #[display(fmt = "unsupported transaction")]
+    Unsupported,
 }
 
 impl Error for TransactionExecutorError {}
-- 
2.43.0


From c5476cfd43c8cb7d078402bba9bb14f708c55e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 05/30] fix: the memory storage keeps items of different
 categories apart

---
 core/storage/src/adapter/memory.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/core/storage/src/adapter/memory.rs b/core/storage/src/adapter/memory.rs
index 8e4abf5..1b6dca0 100644
--- a/core/storage/src/adapter/memory.rs
+++ b/core/storage/src/adapter/memory.rs
@@ -39,7 +39,7 @@ impl StorageAdapter for MemoryAdapter {
         mut key: <S as StorageSchema>::Key,
         mut val: <S as StorageSchema>::Value,
     ) -> ProtocolResult<()> {
-        let key = key.encode().await?.to_vec();
+        let key = category_key::<S>(key.encode().await?);
         let val = val.encode().await?.to_vec();
 
         self.db.write().insert(key, val);
@@ -51,9 +51,9 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<Option<<S as StorageSchema>::Value>> {
-        let key = key.encode().await?;
+        let key = category_key::<S>(key.encode().await?);
 
-        let opt_bytes = self.db.read().get(&key.to_vec()).cloned();
+        let opt_bytes = self.db.read().get(&key).cloned();
 
         if let Some(bytes) = opt_bytes {
             let val = <_>::decode(bytes).await?;
@@ -68,7 +68,7 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<()> {
-        let key = key.encode().await?.to_vec();
+        let key = category_key::<S>(key.encode().await?);
 
         self.db.write().remove(&key);
 
@@ -79,7 +79,7 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<bool> {
-        let key = key.encode().await?.to_vec();
+        let key = category_key::<S>(key.encode().await?);
 
         Ok(self.db.read().get(&key).is_some())
     }
@@ -93,10 +93,10 @@ impl StorageAdapter for MemoryAdapter {
             return Err(MemoryAdapterError::BatchLengthMismatch.into());
         }
 
-        let mut pairs: Vec<(Bytes, Option<Bytes>)> = Vec::with_capacity(keys.len());
+        let mut pairs: Vec<(Vec<u8>, Option<Bytes>)> = Vec::with_capacity(keys.len());
 
         for (mut key, value) in keys.into_iter().zip(vals.into_iter()) {
-            let key = key.encode().await?;
+            let key = category_key::<S>(key.encode().await?);
 
             let value = match value {
                 StorageBatchModify::Insert(mut value) => Some(value.encode().await?),
@@ -108,8 +108,8 @@ impl StorageAdapter for MemoryAdapter {
 
         for (key, value) in pairs.into_iter() {
             match value {
-                Some(value) => self.db.write().insert(key.to_vec(), value.to_vec()),
-                None => self.db.write().remove(&key.to_vec()),
+                Some(value) => self.db.write().insert(key, value.to_vec()),
+                None => self.db.write().remove(&key),
             };
         }
 
@@ -117,6 +117,14 @@ impl StorageAdapter for MemoryAdapter {
     }
 }
 
+// Items of different categories may share a key, each category has its own key
+// space.
+fn category_key<S: StorageSchema>(key: Bytes) -> Vec<u8> {
+    let mut full_key = vec![S::category() as u8];
+    full_key.extend_from_slice(&key);
+    full_key
+}
+
 #[derive(Debug, Display, From)]
 pub enum MemoryAdapterError {
     #[display(fmt = "batch length dont match")]
-- 
2.43.0


From db6ea523e774fc5869b6f5e3999bf3d48f2f5cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 06/30] fix: a batch of the memory storage becomes visible as a
 whole

---
 core/storage/src/adapter/memory.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/storage/src/adapter/memory.rs b/core/storage/src/adapter/memory.rs
index 1b6dca0..cc01577 100644
--- a/core/storage/src/adapter/memory.rs
+++ b/core/storage/src/adapter/memory.rs
@@ -106,10 +106,11 @@ impl StorageAdapter for MemoryAdapter {
             pairs.push((key, value))
         }
 
+        let mut db = self.db.write();
         for (key, value) in pairs.into_iter() {
             match value {
-                Some(value) => self.db.write().insert(key, value.to_vec()),
-                None => self.db.write().remove(&key),
+                Some(value) => db.insert(key, value.to_vec()),
+                None => db.remove(&key),
             };
         }
 
-- 
2.43.0


From b421d3ef317dd8ab0bd4b2f27b3cbeac7c1b86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 07/30] fix: malformed bytes are a decode error of the fixed
 codec, not a panic

---
 protocol/src/fixed_codec/epoch.rs       | 10 +++++-----
 protocol/src/fixed_codec/genesis.rs     | 17 +++++------------
 protocol/src/fixed_codec/primitive.rs   |  6 +++---
 protocol/src/fixed_codec/transaction.rs |  2 +-
 4 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/protocol/src/fixed_codec/epoch.rs b/protocol/src/fixed_codec/epoch.rs
index aa79ac1..ffe2a32 100644
--- a/protocol/src/fixed_codec/epoch.rs
+++ b/protocol/src/fixed_codec/epoch.rs
@@ -96,7 +96,7 @@ impl rlp::Decodable for EpochHeader {
         }
 
         let chain_id: Hash = rlp::decode(r.at(0)?.as_raw())?;
-        let confirm_root: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let confirm_root: Vec<Hash> = r.at(1)?.as_list()?;
         let cycles_used: u64 = r.at(2)?.as_val()?;
         let epoch_id: u64 = r.at(3)?.as_val()?;
         let logs_bloom: Bloom = rlp::decode(r.at(4)?.as_raw())?;
@@ -104,11 +104,11 @@ impl rlp::Decodable for EpochHeader {
         let pre_hash = rlp::decode(r.at(6)?.as_raw())?;
         let proof: Proof = rlp::decode(r.at(7)?.as_raw())?;
         let proposer = rlp::decode(r.at(8)?.as_raw())?;
-        let receipt_root: Vec<Hash> = rlp::decode_list(r.at(9)?.as_raw());
+        let receipt_root: Vec<Hash> = r.at(9)?.as_list()?;
         let state_root = rlp::decode(r.at(10)?.as_raw())?;
         let timestamp: u64 = r.at(11)?.as_val()?;
         let validator_version: u64 = r.at(12)?.as_val()?;
-        let validators: Vec<Validator> = rlp::decode_list(r.at(13)?.as_raw());
+        let validators: Vec<Validator> = r.at(13)?.as_list()?;
 
         Ok(EpochHeader {
             chain_id,
@@ -144,7 +144,7 @@ impl rlp::Decodable for Epoch {
         }
 
         let header: EpochHeader = rlp::decode(r.at(0)?.as_raw())?;
-        let ordered_tx_hashes: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let ordered_tx_hashes: Vec<Hash> = r.at(1)?.as_list()?;
 
         Ok(Epoch {
             header,
@@ -168,7 +168,7 @@ impl rlp::Decodable for Pill {
         }
 
         let epoch: Epoch = rlp::decode(r.at(0)?.as_raw())?;
-        let propose_hashes: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let propose_hashes: Vec<Hash> = r.at(1)?.as_list()?;
 
         Ok(Pill {
             epoch,
diff --git a/protocol/src/fixed_codec/genesis.rs b/protocol/src/fixed_codec/genesis.rs
index 7a80c18..2cd453d 100644
--- a/protocol/src/fixed_codec/genesis.rs
+++ b/protocol/src/fixed_codec/genesis.rs
@@ -27,19 +27,12 @@ impl rlp::Decodable for GenesisSystemToken {
             return Err(rlp::DecoderError::RlpIncorrectListLen);
         }
 
-        let mut values = Vec::with_capacity(4);
-
-        for val in r {
-            let data = val.data()?;
-            values.push(data)
-        }
-
-        let code = String::from_utf8(values[0].to_vec())
+        let code = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let name = String::from_utf8(values[1].to_vec())
+        let name = String::from_utf8(r.at(1)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
         let supply: u64 = r.at(2)?.as_val()?;
-        let symbol = String::from_utf8(values[3].to_vec())
+        let symbol = String::from_utf8(r.at(3)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
 
         Ok(GenesisSystemToken {
@@ -90,7 +83,7 @@ impl rlp::Decodable for GenesisStateAlloc {
 
         let address = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let assets: Vec<GenesisStateAsset> = rlp::decode_list(r.at(1)?.as_raw());
+        let assets: Vec<GenesisStateAsset> = r.at(1)?.as_list()?;
 
         Ok(GenesisStateAlloc { address, assets })
     }
@@ -114,7 +107,7 @@ impl rlp::Decodable for Genesis {
 
         let prevhash = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let state_alloc: Vec<GenesisStateAlloc> = rlp::decode_list(r.at(1)?.as_raw());
+        let state_alloc: Vec<GenesisStateAlloc> = r.at(1)?.as_list()?;
         let system_token = rlp::decode(r.at(2)?.as_raw())?;
         let timestamp = r.at(3)?.as_val()?;
 
diff --git a/protocol/src/fixed_codec/primitive.rs b/protocol/src/fixed_codec/primitive.rs
index 320b456..065ecf9 100644
--- a/protocol/src/fixed_codec/primitive.rs
+++ b/protocol/src/fixed_codec/primitive.rs
@@ -208,7 +208,7 @@ impl rlp::Decodable for Account {
 
         match flag {
             USER_ACCOUNT_FLAG => {
-                let asset_list: Vec<FixedUserAsset> = rlp::decode_list(r.at(1)?.as_raw());
+                let asset_list: Vec<FixedUserAsset> = r.at(1)?.as_list()?;
                 let nonce = r.at(2)?.as_val()?;
 
                 let mut assets = BTreeMap::new();
@@ -223,7 +223,7 @@ impl rlp::Decodable for Account {
                 Ok(Account::User(UserAccount { nonce, assets }))
             }
             CONTRACT_ACCOUNT_FLAG => {
-                let asset_list: Vec<FixedContractAsset> = rlp::decode_list(r.at(1)?.as_raw());
+                let asset_list: Vec<FixedContractAsset> = r.at(1)?.as_list()?;
 
                 let mut assets = BTreeMap::new();
 
@@ -276,7 +276,7 @@ impl rlp::Encodable for FixedUserAsset {
 
 impl rlp::Decodable for FixedUserAsset {
     fn decode(r: &rlp::Rlp) -> Result<Self, rlp::DecoderError> {
-        let approved_list: Vec<FixedUserAssetApproved> = rlp::decode_list(r.at(0)?.as_raw());
+        let approved_list: Vec<FixedUserAssetApproved> = r.at(0)?.as_list()?;
 
         let mut approved = BTreeMap::new();
         for v in approved_list {
diff --git a/protocol/src/fixed_codec/transaction.rs b/protocol/src/fixed_codec/transaction.rs
index 9e7a8bc..c0d7c90 100644
--- a/protocol/src/fixed_codec/transaction.rs
+++ b/protocol/src/fixed_codec/transaction.rs
@@ -169,7 +169,7 @@ impl rlp::Decodable for RawTransaction {
                 let (chain_id, fee, nonce, timeout) = help_decode_raw_tx(r)?;
 
                 // Decode tx action fields
-                let args: Vec<String> = rlp::decode_list(r.at(6)?.as_raw());
+                let args: Vec<String> = r.at(6)?.as_list()?;
                 let args: Result<Vec<_>, _> = args.iter().map(|arg| hex_to_bytes(&arg)).collect();
                 let args = args?;
 
-- 
2.43.0


From b3b599a12b71a3cf12b2090720ca37317a510e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 08/30] fix: a logs bloom of the wrong length is a decode
 error, not a panic

---
 protocol/src/codec/epoch.rs     |  5 ++---
 protocol/src/codec/primitive.rs | 10 +++++++++-
 protocol/src/codec/receipt.rs   |  8 +++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/protocol/src/codec/epoch.rs b/protocol/src/codec/epoch.rs
index 86df6bb..cbae65e 100644
--- a/protocol/src/codec/epoch.rs
+++ b/protocol/src/codec/epoch.rs
@@ -5,12 +5,11 @@ use prost::Message;
 
 use crate::{
     codec::{
-        primitive::{Hash, UserAddress},
+        primitive::{bloom_from_bytes, Hash, UserAddress},
         CodecError, ProtocolCodecSync,
     },
     field, impl_default_bytes_codec_for,
     types::primitive as protocol_primitive,
-    types::Bloom,
     ProtocolError, ProtocolResult,
 };
 
@@ -236,7 +235,7 @@ impl TryFrom<EpochHeader> for epoch::EpochHeader {
             epoch_id: epoch_header.epoch_id,
             pre_hash: protocol_primitive::Hash::try_from(pre_hash)?,
             timestamp: epoch_header.timestamp,
-            logs_bloom: Bloom::from_slice(&epoch_header.logs_bloom),
+            logs_bloom: bloom_from_bytes(&epoch_header.logs_bloom)?,
             order_root: protocol_primitive::Hash::try_from(order_root)?,
             confirm_root,
             state_root: protocol_primitive::Hash::try_from(state_root)?,
diff --git a/protocol/src/codec/primitive.rs b/protocol/src/codec/primitive.rs
index c4bc1a1..f280b46 100644
--- a/protocol/src/codec/primitive.rs
+++ b/protocol/src/codec/primitive.rs
@@ -8,9 +8,12 @@ use crate::{
     codec::{CodecError, ProtocolCodecSync},
     field, impl_default_bytes_codec_for,
     types::primitive as protocol_primitive,
+    types::Bloom,
     ProtocolError, ProtocolResult,
 };
 
+const BLOOM_LEN: usize = 256;
+
 // #####################
 // Protobuf
 // #####################
@@ -332,7 +335,6 @@ impl_default_bytes_codec_for!(primitive, [
 // Util
 // #####################
 
-#[allow(dead_code)]
 fn ensure_len(real: usize, expect: usize) -> Result<(), CodecError> {
     if real != expect {
         return Err(CodecError::WrongBytesLength { expect, real });
@@ -340,3 +342,9 @@ fn ensure_len(real: usize, expect: usize) -> Result<(), CodecError> {
 
     Ok(())
 }
+
+pub(super) fn bloom_from_bytes(bytes: &[u8]) -> Result<Bloom, CodecError> {
+    ensure_len(bytes.len(), BLOOM_LEN)?;
+
+    Ok(Bloom::from_slice(bytes))
+}
diff --git a/protocol/src/codec/receipt.rs b/protocol/src/codec/receipt.rs
index f04f8f2..62f0c6c 100644
--- a/protocol/src/codec/receipt.rs
+++ b/protocol/src/codec/receipt.rs
@@ -5,12 +5,14 @@ use prost::{Message, Oneof};
 
 use crate::{
     codec::{
-        primitive::{AssetID, Balance, ContractAddress, ContractType, Fee, Hash, UserAddress},
+        primitive::{
+            bloom_from_bytes, AssetID, Balance, ContractAddress, ContractType, Fee, Hash,
+            UserAddress,
+        },
         CodecError, ProtocolCodecSync,
     },
     field, impl_default_bytes_codec_for,
     types::primitive as protocol_primitive,
-    types::Bloom,
     ProtocolError, ProtocolResult,
 };
 
@@ -232,7 +234,7 @@ impl TryFrom<ReceiptResult> for receipt::ReceiptResult {
                 let action = receipt::ReceiptResult::Call {
                     contract:     protocol_primitive::ContractAddress::try_from(contract)?,
                     return_value: Bytes::from(call.return_value),
-                    logs_bloom:   Box::new(Bloom::from_slice(&call.logs_bloom)),
+                    logs_bloom:   Box::new(bloom_from_bytes(&call.logs_bloom)?),
                 };
 
                 Ok(action)
-- 
2.43.0


From ce45a37bd51884199689ed875cddc9a356636c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 09/30] fix: a contract type survives the protobuf round trip
 of transactions and receipts

---
 protocol/src/codec/primitive.rs   | 22 ++++++++++++++--------
 protocol/src/codec/receipt.rs     |  3 ++-
 protocol/src/codec/transaction.rs |  3 ++-
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/protocol/src/codec/primitive.rs b/protocol/src/codec/primitive.rs
index f280b46..d245b27 100644
--- a/protocol/src/codec/primitive.rs
+++ b/protocol/src/codec/primitive.rs
@@ -209,6 +209,19 @@ impl TryFrom<UserAddress> for protocol_primitive::UserAddress {
     }
 }
 
+// ContractType
+
+impl From<protocol_primitive::ContractType> for ContractType {
+    fn from(contract_type: protocol_primitive::ContractType) -> ContractType {
+        match contract_type {
+            protocol_primitive::ContractType::Asset => ContractType::Asset,
+            protocol_primitive::ContractType::Library => ContractType::Library,
+            protocol_primitive::ContractType::App => ContractType::App,
+            protocol_primitive::ContractType::Native => ContractType::Native,
+        }
+    }
+}
+
 // ContractAddress
 
 impl From<protocol_primitive::ContractAddress> for ContractAddress {
@@ -216,16 +229,9 @@ impl From<protocol_primitive::ContractAddress> for ContractAddress {
         let value = contract.as_bytes().to_vec();
         let address = Some(Address { value });
 
-        let contract_type = match contract.contract_type() {
-            protocol_primitive::ContractType::Asset => ContractType::Asset,
-            protocol_primitive::ContractType::Library => ContractType::Library,
-            protocol_primitive::ContractType::App => ContractType::App,
-            protocol_primitive::ContractType::Native => ContractType::Native,
-        };
-
         ContractAddress {
             value:         address,
-            contract_type: contract_type as i32,
+            contract_type: ContractType::from(contract.contract_type()) as i32,
         }
     }
 }
diff --git a/protocol/src/codec/receipt.rs b/protocol/src/codec/receipt.rs
index 62f0c6c..76679f7 100644
--- a/protocol/src/codec/receipt.rs
+++ b/protocol/src/codec/receipt.rs
@@ -143,7 +143,7 @@ impl From<receipt::ReceiptResult> for ReceiptResult {
             } => {
                 let deploy = Deploy {
                     contract:      Some(ContractAddress::from(contract)),
-                    contract_type: contract_type as i32,
+                    contract_type: ContractType::from(contract_type) as i32,
                 };
 
                 ReceiptResult::Deploy(deploy)
@@ -218,6 +218,7 @@ impl TryFrom<ReceiptResult> for receipt::ReceiptResult {
                     0 => protocol_primitive::ContractType::Asset,
                     1 => protocol_primitive::ContractType::Library,
                     2 => protocol_primitive::ContractType::App,
+                    3 => protocol_primitive::ContractType::Native,
                     _ => return Err(CodecError::InvalidContractType(deploy.contract_type).into()),
                 };
 
diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 3b24e40..6bb5594 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -181,7 +181,7 @@ impl From<transaction::TransactionAction> for TransactionAction {
             } => {
                 let deploy = Deploy {
                     code:          code.to_vec(),
-                    contract_type: contract_type as i32,
+                    contract_type: ContractType::from(contract_type) as i32,
                 };
 
                 TransactionAction::Deploy(deploy)
@@ -255,6 +255,7 @@ impl TryFrom<TransactionAction> for transaction::TransactionAction {
                     0 => protocol_primitive::ContractType::Asset,
                     1 => protocol_primitive::ContractType::Library,
                     2 => protocol_primitive::ContractType::App,
+                    3 => protocol_primitive::ContractType::Native,
                     _ => return Err(CodecError::InvalidContractType(deploy.contract_type).into()),
                 };
 
-- 
2.43.0


From 8c4e36b8ca7222ca118830c77d85e180ddc5995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 10/30] fix: approve transactions and receipts have an encoding
 in the fixed codec

---
 protocol/src/fixed_codec/receipt.rs     | 24 +++++++++++++-
 protocol/src/fixed_codec/transaction.rs | 43 ++++++++++++++++++++++++-
 2 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/protocol/src/fixed_codec/receipt.rs b/protocol/src/fixed_codec/receipt.rs
index 07a38e8..7548f0b 100644
--- a/protocol/src/fixed_codec/receipt.rs
+++ b/protocol/src/fixed_codec/receipt.rs
@@ -45,6 +45,7 @@ const TRANSFER_RESULT_FLAG: u8 = 0;
 const DEPLOY_RESULT_FLAG: u8 = 1;
 const CALL_RESULT_FLAG: u8 = 2;
 const FAIL_RESULT_FLAG: u8 = 3;
+const APPROVE_RESULT_FLAG: u8 = 4;
 
 impl rlp::Encodable for ReceiptResult {
     fn rlp_append(&self, s: &mut rlp::RlpStream) {
@@ -93,7 +94,17 @@ impl rlp::Encodable for ReceiptResult {
                     .append(&system.as_bytes())
                     .append(&user.as_bytes());
             }
-            _ => {}
+            ReceiptResult::Approve {
+                spender,
+                asset_id,
+                max,
+            } => {
+                s.begin_list(4)
+                    .append(&APPROVE_RESULT_FLAG)
+                    .append(asset_id)
+                    .append(&max.to_bytes_be())
+                    .append(spender);
+            }
         }
     }
 }
@@ -152,6 +163,17 @@ impl rlp::Decodable for ReceiptResult {
 
                 Ok(ReceiptResult::Fail { system, user })
             }
+            APPROVE_RESULT_FLAG => {
+                let asset_id = rlp::decode(r.at(1)?.as_raw())?;
+                let max = Balance::from_bytes_be(r.at(2)?.data()?);
+                let spender = rlp::decode(r.at(3)?.as_raw())?;
+
+                Ok(ReceiptResult::Approve {
+                    spender,
+                    asset_id,
+                    max,
+                })
+            }
             _ => Err(rlp::DecoderError::RlpListLenWithZeroPrefix),
         }
     }
diff --git a/protocol/src/fixed_codec/transaction.rs b/protocol/src/fixed_codec/transaction.rs
index c0d7c90..eeed39b 100644
--- a/protocol/src/fixed_codec/transaction.rs
+++ b/protocol/src/fixed_codec/transaction.rs
@@ -14,6 +14,7 @@ const TRANSFER_ACTION_FLAG: u8 = 0;
 const DEPLOY_ACTION_FLAG: u8 = 1;
 const CALL_ACTION_WITH_ASSET_FLAG: u8 = 2;
 const CALL_ACTION_WITHOUT_ASSET_FLAG: u8 = 3;
+const APPROVE_ACTION_FLAG: u8 = 4;
 
 impl rlp::Encodable for RawTransaction {
     fn rlp_append(&self, s: &mut rlp::RlpStream) {
@@ -102,7 +103,26 @@ impl rlp::Encodable for RawTransaction {
                 s.append(&contract.as_bytes().to_vec());
                 s.append(&method.as_bytes());
             }
-            _ => {}
+            TransactionAction::Approve {
+                spender,
+                asset_id,
+                max,
+            } => {
+                s.begin_list(9);
+                s.append(&APPROVE_ACTION_FLAG);
+
+                // Append tx basic fields
+                s.append(&self.chain_id.as_bytes().to_vec());
+                s.append(&self.fee.asset_id.as_bytes().to_vec());
+                s.append(&self.fee.cycle);
+                s.append(&self.nonce.as_bytes().to_vec());
+                s.append(&self.timeout);
+
+                // Append tx action fields
+                s.append(&asset_id.as_bytes().to_vec());
+                s.append(&max.to_bytes_be());
+                s.append(&spender.as_bytes().to_vec());
+            }
         }
     }
 }
@@ -221,6 +241,27 @@ impl rlp::Decodable for RawTransaction {
                     })
                 }
             }
+            APPROVE_ACTION_FLAG => {
+                // Decode tx basic fields
+                let (chain_id, fee, nonce, timeout) = help_decode_raw_tx(r)?;
+
+                // Decode tx action fields
+                let action = TransactionAction::Approve {
+                    spender:  ContractAddress::from_bytes(Bytes::from(r.at(8)?.data()?))
+                        .map_err(|_| rlp::DecoderError::RlpInvalidLength)?,
+                    asset_id: Hash::from_bytes(Bytes::from(r.at(6)?.data()?))
+                        .map_err(|_| rlp::DecoderError::RlpInvalidLength)?,
+                    max:      Balance::from_bytes_be(r.at(7)?.data()?),
+                };
+
+                Ok(RawTransaction {
+                    chain_id,
+                    nonce,
+                    timeout,
+                    fee,
+                    action,
+                })
+            }
             _ => Err(rlp::DecoderError::RlpListLenWithZeroPrefix),
         }
     }
-- 
2.43.0


From 5f84d8aca908b03095990946c7b5b0a533801397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 11/30] fix: a validator weight that does not fit is a decode
 error, not truncated

---
 protocol/src/codec/epoch.rs | 8 ++++++--
 protocol/src/codec/mod.rs   | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/protocol/src/codec/epoch.rs b/protocol/src/codec/epoch.rs
index cbae65e..6be97aa 100644
--- a/protocol/src/codec/epoch.rs
+++ b/protocol/src/codec/epoch.rs
@@ -307,14 +307,18 @@ impl TryFrom<Validator> for epoch::Validator {
 
         let validator = epoch::Validator {
             address:        protocol_primitive::UserAddress::try_from(address)?,
-            propose_weight: validator.propose_weight as u8,
-            vote_weight:    validator.vote_weight as u8,
+            propose_weight: weight_from_u32(validator.propose_weight)?,
+            vote_weight:    weight_from_u32(validator.vote_weight)?,
         };
 
         Ok(validator)
     }
 }
 
+fn weight_from_u32(weight: u32) -> Result<u8, CodecError> {
+    u8::try_from(weight).map_err(|_| CodecError::InvalidWeight(weight))
+}
+
 // Pill
 
 impl From<epoch::Pill> for Pill {
diff --git a/protocol/src/codec/mod.rs b/protocol/src/codec/mod.rs
index 15c4d94..9754901 100644
--- a/protocol/src/codec/mod.rs
+++ b/protocol/src/codec/mod.rs
@@ -68,6 +68,9 @@ pub enum CodecError {
     #[display(fmt = "invalid contract type {}", _0)]
     InvalidContractType(i32),
 
+    #[display(fmt = "invalid weight {}", _0)]
+    InvalidWeight(u32),
+
     #[display(fmt = "wrong bytes length: {{ expect: {}, got: {} }}", expect, real)]
     WrongBytesLength { expect: usize, real: usize },
 }
-- 
2.43.0


From 8db798bf458a71981d5eed813a3e8d0723930057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 12/30] fix: a request that cannot be sent leaves no pending
 rpc entry

---
 core/network/src/outbound/rpc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/network/src/outbound/rpc.rs b/core/network/src/outbound/rpc.rs
index 8ac13c4..00b2a2f 100644
--- a/core/network/src/outbound/rpc.rs
+++ b/core/network/src/outbound/rpc.rs
@@ -58,13 +58,18 @@ where
         let endpoint = end.parse::<Endpoint>()?;
         let sid = cx.session_id()?;
         let rid = self.map.next_rpc_id();
-        let done_rx = self.map.insert::<R>(sid, rid);
 
         let data = msg.encode().await?;
         let endpoint = endpoint.extend(&rid.to_string())?;
         let net_msg = NetworkMessage::new(endpoint, data).encode().await?;
 
-        self.send(cx, sid, net_msg, p)?;
+        let done_rx = self.map.insert::<R>(sid, rid);
+        if let Err(err) = self.send(cx, sid, net_msg, p) {
+            // No request, no response. Drop its pending entry
+            let _ = self.map.take::<R>(sid, rid);
+
+            return Err(err.into());
+        }
 
         let ret = done_rx
             .map_err(|_| ErrorKind::RpcDropped)
-- 
2.43.0


From fd64dbb5e2ad50893a9c9b011413f4aebb5057ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 13/30] fix: an unknown address is given up after its retries,
 not before them

---
 core/network/src/peer_manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index d597586..bad02e5 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -85,7 +85,7 @@ impl UnknownAddr {
     }
 
     pub fn reach_max_retry(&self) -> bool {
-        MAX_RETRY_COUNT + 1 >= self.retry_count
+        MAX_RETRY_COUNT <= self.retry_count
     }
 }
 
-- 
2.43.0


From 9aa32a28582575110f655575b17d687147138ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 14/30] fix: a peer that reaches max retry is disconnected too

---
 core/network/src/peer_manager/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index bad02e5..9507c77 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -897,14 +897,8 @@ impl PeerManager {
                     self.peer_id, pid
                 );
 
-                self.increase_peer_retry(&pid);
-
-                if !self.peer_session.contains_key(&pid) {
-                    debug!("network: retry peer {:?} but session id not found", pid);
-                    return;
-                }
-
-                // Make sure that we disconnect this peer
+                // Make sure that we disconnect this peer. Do it first, its session
+                // is forgotten once it reaches max retry.
                 if let Some(sid) = self.peer_session.get(&pid) {
                     let disconnect_peer = ConnectionEvent::Disconnect(*sid);
 
@@ -912,7 +906,11 @@ impl PeerManager {
                     if self.conn_tx.unbounded_send(disconnect_peer).is_err() {
                         debug!("network: connection service exit");
                     }
+                } else {
+                    debug!("network: retry peer {:?} but session id not found", pid);
                 }
+
+                self.increase_peer_retry(&pid);
             }
             PeerManagerEvent::DiscoverAddr { addr } => {
                 self.identify_addr(addr);
-- 
2.43.0


From d2bf082ab1b81165690c0eb8291ceca042c03e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 15/30] fix: a peer whose dial failed can be dialed again

---
 core/network/src/peer_manager/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 9507c77..384aca6 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -319,6 +319,10 @@ impl Inner {
         self.connecting.write().insert(peer_id.clone());
     }
 
+    pub fn connect_failed(&self, peer_id: &PeerId) {
+        self.connecting.write().remove(peer_id);
+    }
+
     pub fn set_connected(&self, peer_id: &PeerId, ip: Option<IpAddr>) {
         // Clean outbound connection
         self.connecting.write().remove(peer_id);
@@ -956,8 +960,21 @@ impl PeerManager {
             PeerManagerEvent::UnconnectableAddress { addr, .. } => {
                 self.unknown_addrs.remove(&addr.clone().into());
 
+                let opt_pid = self.inner.match_pid(&addr);
+                if let Some(pid) = opt_pid.as_ref() {
+                    self.inner.connect_failed(pid);
+                }
+
                 if self.bootstraps.contains(&addr) {
                     error!("network: unconnectable bootstrap address {}", addr);
+
+                    // Back off before next attempt
+                    match opt_pid {
+                        Some(ref pid) if !self.inner.peer_connected(pid) => {
+                            self.increase_peer_retry(pid)
+                        }
+                        _ => (),
+                    }
                     return;
                 }
 
@@ -980,6 +997,7 @@ impl PeerManager {
                         return;
                     }
 
+                    self.inner.connect_failed(&pid);
                     self.increase_peer_retry(&pid);
                 }
             }
-- 
2.43.0


From d9dab39a90775fdb0f7437526a56b0fcb4c9bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 16/30] fix: a peer without address takes no connection slot

---
 core/network/src/peer_manager/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 384aca6..86a4dc6 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -365,7 +365,11 @@ impl Inner {
         let qualified_peers = pool.values().filter(|peer| {
             let pid = peer.id();
 
-            !connected.contains(pid) && !connecting.contains(pid) && peer.retry_ready()
+            // A peer without address cannot be dialed, never mark it as connecting
+            !connected.contains(pid)
+                && !connecting.contains(pid)
+                && !peer.addrs().is_empty()
+                && peer.retry_ready()
         });
 
         qualified_peers
-- 
2.43.0


From 64c77eb0aec1a07502906f639f4f2177421d8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:01 +0000
Subject: [PATCH 17/30] fix: the cycle count of a package cannot wrap around

---
 core/mempool/src/tx_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mempool/src/tx_cache.rs b/core/mempool/src/tx_cache.rs
index 54f6cb6..757a5b8 100644
--- a/core/mempool/src/tx_cache.rs
+++ b/core/mempool/src/tx_cache.rs
@@ -217,7 +217,7 @@ impl TxCache {
                 }
                 // Accumulate cycles. The order_tx_hashes and the propose_tx_hashes both collect
                 // transactions under cycle limit.
-                cycle_count += shared_tx.tx.raw.fee.cycle;
+                cycle_count = cycle_count.saturating_add(shared_tx.tx.raw.fee.cycle);
                 if cycle_count > cycle_limit {
                     stage = stage.next();
                     cycle_count = shared_tx.tx.raw.fee.cycle;
-- 
2.43.0


From 138cb3ca0b5a5d2cf31354869b14651d9155d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:01 +0000
Subject: [PATCH 18/30] fix: calls for transactions reach the handler that
 answers them

---
 src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d694507..e87f46a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,8 +23,8 @@ use core_consensus::message::{
 use core_executor::trie::RocksTrieDB;
 use core_executor::TransactionExecutorFactory;
 use core_mempool::{
-    DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, NewTxsHandler, END_GOSSIP_NEW_TXS,
-    END_RESP_PULL_TXS, END_RPC_PULL_TXS,
+    DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, NewTxsHandler, PullTxsHandler,
+    END_GOSSIP_NEW_TXS, END_RESP_PULL_TXS, END_RPC_PULL_TXS,
 };
 use core_network::{NetworkConfig, NetworkService};
 use core_storage::{adapter::rocks::RocksAdapter, ImplStorage};
@@ -215,7 +215,10 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
     network_service
         .register_endpoint_handler(
             END_RPC_PULL_TXS,
-            Box::new(NewTxsHandler::new(Arc::clone(&mempool))),
+            Box::new(PullTxsHandler::new(
+                network_service.handle(),
+                Arc::clone(&mempool),
+            )),
         )
         .unwrap();
 
-- 
2.43.0


From 0ff84ad01ab49d59d41988a9f84f77bddb220ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:01 +0000
Subject: [PATCH 19/30] fix: transactions pulled from another node are verified

---
 core/mempool/src/lib.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 91f66e0..671e5d2 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -67,6 +67,24 @@ where
     pub fn get_adapter(&self) -> &Adapter {
         &self.adapter
     }
+
+    /// Transactions pulled from another node are as untrusted as those that
+    /// are gossiped.
+    async fn check_pulled_txs(&self, ctx: Context, txs: &[SignedTransaction]) -> ProtocolResult<()> {
+        for tx in txs {
+            self.adapter
+                .check_signature(ctx.clone(), tx.clone())
+                .await?;
+            self.adapter
+                .check_transaction(ctx.clone(), tx.clone())
+                .await?;
+            self.adapter
+                .check_storage_exist(ctx.clone(), tx.tx_hash.clone())
+                .await?;
+        }
+
+        Ok(())
+    }
 }
 
 #[async_trait]
@@ -157,6 +175,7 @@ where
                 }
                 .into());
             }
+            self.check_pulled_txs(ctx, &txs).await?;
             txs.into_iter().for_each(|tx| {
                 self.callback_cache.insert(tx.tx_hash.clone(), tx);
             });
@@ -173,6 +192,7 @@ where
         let unknown_hashes = self.tx_cache.show_unknown(propose_tx_hashes);
         if !unknown_hashes.is_empty() {
             let txs = self.adapter.pull_txs(ctx.clone(), unknown_hashes).await?;
+            self.check_pulled_txs(ctx, &txs).await?;
             txs.into_iter().for_each(|tx| {
                 // Should not handle error here, it is normal that transactions response here
                 // are exist in pool.
-- 
2.43.0


From 309022794d58367ea00acff13a1c96d4465c0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:01 +0000
Subject: [PATCH 20/30] fix: an answer must hold the transactions that were
 asked for

---
 core/mempool/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 671e5d2..071e47b 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -166,7 +166,10 @@ where
         let unknown_hashes = self.tx_cache.show_unknown(order_tx_hashes);
         if !unknown_hashes.is_empty() {
             let unknown_len = unknown_hashes.len();
-            let txs = self.adapter.pull_txs(ctx.clone(), unknown_hashes).await?;
+            let txs = self
+                .adapter
+                .pull_txs(ctx.clone(), unknown_hashes.clone())
+                .await?;
             // Make sure response signed_txs is the same size of request hashes.
             if txs.len() != unknown_len {
                 return Err(MemPoolError::EnsureBreak {
@@ -179,6 +182,12 @@ where
             txs.into_iter().for_each(|tx| {
                 self.callback_cache.insert(tx.tx_hash.clone(), tx);
             });
+            // The answer may hold other transactions than the requested ones.
+            for tx_hash in unknown_hashes {
+                if !self.callback_cache.contains_key(&tx_hash) {
+                    return Err(MemPoolError::MisPull { tx_hash }.into());
+                }
+            }
         }
 
         Ok(())
@@ -217,6 +226,9 @@ pub enum MemPoolError {
     #[display(fmt = "Pull txs, require: {}, response: {}", require, response)]
     EnsureBreak { require: usize, response: usize },
 
+    #[display(fmt = "Tx: {:?} is not among the pulled txs", tx_hash)]
+    MisPull { tx_hash: Hash },
+
     #[display(fmt = "Fetch full txs, require: {}, response: {}", require, response)]
     MisMatch { require: usize, response: usize },
 
-- 
2.43.0


From 872a0e5da460e49ba4883f2e2b821ea95d9fab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 21/30] fix: a signature that is too short is reported

---
 core/consensus/src/util.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/util.rs b/core/consensus/src/util.rs
index be63645..f7547e7 100644
--- a/core/consensus/src/util.rs
+++ b/core/consensus/src/util.rs
@@ -13,6 +13,9 @@ use protocol::ProtocolError;
 
 use crate::ConsensusError;
 
+/// Length of the compressed public key in front of each signature.
+const PUBKEY_LEN: usize = 33;
+
 #[derive(Clone, Debug)]
 pub struct OverlordCrypto {
     public_key:  Secp256k1PublicKey,
@@ -39,7 +42,13 @@ impl Crypto for OverlordCrypto {
         mut signature: Bytes,
         hash: Bytes,
     ) -> Result<Bytes, Box<dyn Error + Send>> {
-        let tmp = signature.split_off(33);
+        if signature.len() < PUBKEY_LEN {
+            return Err(ProtocolError::from(ConsensusError::Other(
+                "signature is too short".to_string(),
+            ))
+            .into());
+        }
+        let tmp = signature.split_off(PUBKEY_LEN);
         let pub_key = signature;
         let signature = tmp;
 
-- 
2.43.0


From e7a61334667f46539fc5bae0971587e65f376f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 22/30] fix: an answer that cannot be decoded is reported

---
 core/consensus/src/fixed_types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/fixed_types.rs b/core/consensus/src/fixed_types.rs
index 714af44..27f1172 100644
--- a/core/consensus/src/fixed_types.rs
+++ b/core/consensus/src/fixed_types.rs
@@ -46,6 +46,9 @@ impl MessageCodec for ConsensusRpcResponse {
     }
 
     async fn decode(mut bytes: Bytes) -> ProtocolResult<Self> {
+        if bytes.is_empty() {
+            return Err(ConsensusError::DecodeErr(MsgType::RpcPullEpochs).into());
+        }
         let len = bytes.len();
         let flag = bytes.split_off(len - 1);
 
@@ -60,7 +63,7 @@ impl MessageCodec for ConsensusRpcResponse {
                     .map_err(|_| ConsensusError::DecodeErr(MsgType::RpcPullTxs))?;
                 Ok(ConsensusRpcResponse::PullTxs(Box::new(res)))
             }
-            _ => unreachable!(),
+            _ => Err(ConsensusError::DecodeErr(MsgType::RpcPullEpochs).into()),
         }
     }
 }
-- 
2.43.0


From a8179c20ac0b0fea4587bbf48262e62ca52debf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 23/30] fix: the epoch id that a peer tells cannot underflow

---
 core/consensus/src/consensus.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 7fcd99d..3e52e6e 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -72,7 +72,10 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
         // Reveive the rich epoch ID.
         let epoch_id: FixedEpochID =
             deserialize(&msg).map_err(|_| ConsensusError::DecodeErr(MsgType::RichEpochID))?;
-        let rich_epoch_id = epoch_id.inner - 1;
+        let rich_epoch_id = epoch_id
+            .inner
+            .checked_sub(1)
+            .ok_or_else(|| ConsensusError::DecodeErr(MsgType::RichEpochID))?;
 
         // TODO: fix to get_epoch_by_epoch_id()
         let current_epoch_id = self
@@ -81,7 +84,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             .await
             .unwrap_or(1u64);
 
-        if current_epoch_id >= rich_epoch_id - 1 {
+        if current_epoch_id + 1 >= rich_epoch_id {
             return Ok(());
         }
 
-- 
2.43.0


From a6fbff1fe675714cd66ef4f2876e4ee7994da724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 24/30] fix: synchronization stops when the current epoch
 cannot be read

---
 core/consensus/src/consensus.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 3e52e6e..9e9a97d 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -78,11 +78,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             .ok_or_else(|| ConsensusError::DecodeErr(MsgType::RichEpochID))?;
 
         // TODO: fix to get_epoch_by_epoch_id()
-        let current_epoch_id = self
-            .engine
-            .get_current_epoch_id(ctx.clone())
-            .await
-            .unwrap_or(1u64);
+        let current_epoch_id = self.engine.get_current_epoch_id(ctx.clone()).await?;
 
         if current_epoch_id + 1 >= rich_epoch_id {
             return Ok(());
-- 
2.43.0


From c8c171826b6c97d9cd79537e88a8cb2fb592b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 25/30] fix: what was pulled must be what was asked for

---
 core/consensus/src/adapter.rs   | 27 +++++++++++++++++++++++++--
 core/consensus/src/consensus.rs |  3 +++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index a4d0e6b..acdbf69 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -5,6 +5,8 @@ use std::sync::Arc;
 use async_trait::async_trait;
 use log::debug;
 
+use common_crypto::{Crypto, Secp256k1};
+use protocol::fixed_codec::ProtocolFixedCodec;
 use protocol::traits::executor::{ExecutorExecResp, ExecutorFactory, TrieDB};
 use protocol::traits::{
     ConsensusAdapter, Context, Gossip, MemPool, MessageTarget, MixedTxHashes, NodeInfo, Priority,
@@ -177,7 +179,7 @@ where
         hashes: Vec<Hash>,
         end: &str,
     ) -> ProtocolResult<Vec<SignedTransaction>> {
-        let msg = PullTxsRequest::new(hashes);
+        let msg = PullTxsRequest::new(hashes.clone());
         let res = self
             .rpc
             .call::<ConsensusRpcRequest, ConsensusRpcResponse>(
@@ -189,7 +191,10 @@ where
             .await?;
 
         match res {
-            ConsensusRpcResponse::PullTxs(txs) => Ok(txs.inner),
+            ConsensusRpcResponse::PullTxs(txs) => {
+                check_pulled_txs(&hashes, &txs.inner)?;
+                Ok(txs.inner)
+            }
             _ => Err(ConsensusError::RpcErr(MsgType::RpcPullTxs).into()),
         }
     }
@@ -226,3 +231,21 @@ where
         }
     }
 }
+
+/// The answer of a peer must be the requested transactions, in their order.
+fn check_pulled_txs(hashes: &[Hash], txs: &[SignedTransaction]) -> ProtocolResult<()> {
+    if hashes.len() != txs.len() {
+        return Err(ConsensusError::RpcErr(MsgType::RpcPullTxs).into());
+    }
+
+    for (hash, tx) in hashes.iter().zip(txs.iter()) {
+        if tx.tx_hash != *hash || Hash::digest(tx.raw.encode_fixed()?) != *hash {
+            return Err(ConsensusError::RpcErr(MsgType::RpcPullTxs).into());
+        }
+
+        Secp256k1::verify_signature(&hash.as_bytes(), &tx.signature, &tx.pubkey)
+            .map_err(|e| ConsensusError::CryptoErr(Box::new(e)))?;
+    }
+
+    Ok(())
+}
diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 9e9a97d..5b72622 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -124,6 +124,9 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             // First pull a new block.
             debug!("consensus: synchronization pull epoch {}", id);
             let epoch = self.engine.pull_epoch(ctx.clone(), id).await?;
+            if epoch.header.epoch_id != id {
+                return Err(ConsensusError::RpcErr(MsgType::RpcPullEpochs).into());
+            }
 
             // Check proof and previous hash.
             debug!("consensus: synchronization check proof and previous hash");
-- 
2.43.0


From c2bc0b7df01edc8f85a65162059b1abef6404f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 26/30] fix: synchronization starts from the state the last
 epoch left

---
 core/consensus/src/consensus.rs | 3 +--
 core/consensus/src/engine.rs    | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 5b72622..0694960 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -93,13 +93,12 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
         info!("self {}, chain {}", current_epoch_id, rich_epoch_id);
         info!("consensus: start synchronization");
 
-        let mut state_root = Hash::from_empty();
+        let mut state_root = self.engine.get_current_state_root();
         let mut current_hash = if current_epoch_id != 0 {
             let current_epoch = self
                 .engine
                 .get_epoch_by_id(ctx.clone(), current_epoch_id)
                 .await?;
-            state_root = current_epoch.header.state_root.clone();
             let tmp = Hash::digest(current_epoch.encode_fixed()?);
 
             // Check epoch for the first time.
diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index bb045c4..9fb3ecf 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -403,6 +403,11 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         self.adapter.save_proof(ctx, proof).await
     }
 
+    pub fn get_current_state_root(&self) -> MerkleRoot {
+        let current_consensus_status = self.current_consensus_status.read();
+        current_consensus_status.state_root.clone()
+    }
+
     pub fn get_current_interval(&self) -> u64 {
         let current_consensus_status = self.current_consensus_status.read();
         current_consensus_status.consensus_interval
-- 
2.43.0


From 31bc22d6bd4b9e0bf7053e949e741742f27d7f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 27/30] fix: synchronized transactions leave the mempool

---
 core/consensus/src/consensus.rs | 5 +++++
 core/consensus/src/engine.rs    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 0694960..153c7ff 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -166,6 +166,11 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
                 .update_status(epoch.header.epoch_id, epoch.clone(), proof, exec_resp, txs)
                 .await?;
 
+            // The synchronized transactions must not be proposed again.
+            self.engine
+                .flush_mempool(ctx.clone(), epoch.ordered_tx_hashes.clone())
+                .await?;
+
             // Update the previous hash and last epoch.
             info!("consensus: finish synchronization {} epoch", id);
             current_hash = Hash::digest(epoch.encode_fixed()?);
diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 9fb3ecf..a981bba 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -403,6 +403,10 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         self.adapter.save_proof(ctx, proof).await
     }
 
+    pub async fn flush_mempool(&self, ctx: Context, hashes: Vec<Hash>) -> ProtocolResult<()> {
+        self.adapter.flush_mempool(ctx, hashes).await
+    }
+
     pub fn get_current_state_root(&self) -> MerkleRoot {
         let current_consensus_status = self.current_consensus_status.read();
         current_consensus_status.state_root.clone()
-- 
2.43.0


From d86b04a808e9b73cfd071ae681f16a571efa5975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:06 +0000
Subject: [PATCH 28/30] fix: the genesis epoch is written last

A crash between the epoch and the latest proof left a chain that counted
as initialized but had no proof; every later start failed.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e87f46a..e4b60e1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -141,6 +141,8 @@ async fn handle_init(cfg: &Config, genesis_path: impl AsRef<Path>) -> ProtocolRe
         validators:        vec![],
     };
     let latest_proof = genesis_epoch_header.proof.clone();
+    // The epoch is the last thing written: it marks the genesis as initialized.
+    storage.update_latest_proof(latest_proof).await.unwrap();
     storage
         .insert_epoch(Epoch {
             header:            genesis_epoch_header,
@@ -148,7 +150,6 @@ async fn handle_init(cfg: &Config, genesis_path: impl AsRef<Path>) -> ProtocolRe
         })
         .await
         .unwrap();
-    storage.update_latest_proof(latest_proof).await.unwrap();
     Ok(())
 }
 
-- 
2.43.0


From f7bc685469af84c1877004c5e769a494c76c123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:06 +0000
Subject: [PATCH 29/30] fix: a node restarts with the latest proof

The header of the newest epoch carries the proof of the epoch before it.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e4b60e1..7fadca6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -265,7 +265,7 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
         state_root:         current_header.state_root.clone(),
         receipt_root:       vec![Hash::from_empty()],
         cycles_used:        current_header.cycles_used,
-        proof:              current_header.proof.clone(),
+        proof:              storage.get_latest_proof().await?,
         validators:         cfg
             .consensus
             .verifier_list
-- 
2.43.0


From 8d5d18582faa41e985ce82a65465ba96058fbd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:06 +0000
Subject: [PATCH 30/30] fix: a node restarts with the order root of its newest
 epoch

The next proposal named an empty order root and confirmed nothing,
whatever the newest epoch was.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7fadca6..d9bf5df 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -260,8 +260,8 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
         epoch_id:           current_epoch.header.epoch_id + 1,
         prev_hash:          prevhash,
         logs_bloom:         current_header.logs_bloom,
-        order_root:         Hash::from_empty(),
-        confirm_root:       vec![Hash::from_empty()],
+        order_root:         current_header.order_root.clone(),
+        confirm_root:       vec![current_header.order_root.clone()],
         state_root:         current_header.state_root.clone(),
         receipt_root:       vec![Hash::from_empty()],
         cycles_used:        current_header.cycles_used,
-- 
2.43.0

