From 482dfbaf7c19aac6ecfa8d6bc1b3fad370c7582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:25 +0000
Subject: [PATCH 1/5] fix: block admission check must not overflow on large gas
 limits or sizes

block_gas_used + gas_limit (and the encoded-size and DA-size sums) wrapped in
release builds, admitting a transaction that does not fit into the block, and
panicked in debug builds.
---
 crates/mega-evm/src/block/limit.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/mega-evm/src/block/limit.rs b/crates/mega-evm/src/block/limit.rs
index 4a5ef65..111bc18 100644
--- a/crates/mega-evm/src/block/limit.rs
+++ b/crates/mega-evm/src/block/limit.rs
@@ -794,11 +794,14 @@ impl BlockLimiter {
         }
 
         // Check block gas limit
-        if self.block_gas_used + gas_limit > self.limits.block_gas_limit {
+        if self.block_gas_used.saturating_add(gas_limit) > self.limits.block_gas_limit {
             return Err(BlockExecutionError::Validation(
                 BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                     transaction_gas_limit: gas_limit,
-                    block_available_gas: self.limits.block_gas_limit - self.block_gas_used,
+                    block_available_gas: self
+                        .limits
+                        .block_gas_limit
+                        .saturating_sub(self.block_gas_used),
                 },
             ));
         }
@@ -815,7 +818,8 @@ impl BlockLimiter {
         }
 
         // Check block transaction size limit
-        if tx_size + self.block_tx_size_used > self.limits.block_txs_encode_size_limit {
+        if tx_size.saturating_add(self.block_tx_size_used) > self.limits.block_txs_encode_size_limit
+        {
             return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                 hash: tx_hash,
                 error: Box::new(MegaBlockLimitExceededError::TransactionEncodeSizeLimit {
@@ -840,7 +844,7 @@ impl BlockLimiter {
             }
 
             // Check block data availability size limit
-            if da_size + self.block_da_size_used > self.limits.block_da_size_limit {
+            if da_size.saturating_add(self.block_da_size_used) > self.limits.block_da_size_limit {
                 return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                     hash: tx_hash,
                     error: Box::new(MegaBlockLimitExceededError::DataAvailabilitySizeLimit {
-- 
2.43.0


From c4b8d02e0aaf4d763bdc692cdce07b92c6a26210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:32 +0000
Subject: [PATCH 2/5] fix: inspecting an account must not recurse on cyclic
 EIP-7702 delegation

---
 crates/mega-evm/src/evm/instructions.rs | 68 ++++++++++++++-----------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 805c1a5..ea25070 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1268,6 +1268,36 @@ pub trait JournalInspectTr {
     ) -> Result<&EvmStorageSlot, Self::DBError>;
 }
 
+/// Loads the account at exactly the given address (EIP-7702 delegation is not followed) without
+/// marking it as warm.
+fn inspect_account<DB: revm::Database>(
+    journal: &mut Journal<DB>,
+    address: Address,
+) -> Result<&mut Account, DB::Error> {
+    let transaction_id = journal.transaction_id;
+    match journal.inner.state.entry(address) {
+        Entry::Occupied(entry) => {
+            let account = entry.into_mut();
+            if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
+                // Load code if not loaded before
+                account.info.code = Some(journal.database.code_by_hash(account.info.code_hash)?);
+            }
+            Ok(account)
+        }
+        Entry::Vacant(entry) => {
+            let mut account = journal
+                .database
+                .basic(address)?
+                .map(|info| info.into())
+                .unwrap_or_else(|| Account::new_not_existing(transaction_id));
+            // delibrately mark the account as cold since we are only inpecting it, not warming
+            // it.
+            account.mark_cold();
+            Ok(entry.insert(account))
+        }
+    }
+}
+
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
     type DBError = <DB as revm::Database>::Error;
 
@@ -1275,38 +1305,14 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         &mut self,
         address: Address,
     ) -> Result<&mut Account, Self::DBError> {
-        let transaction_id = self.transaction_id;
-        let account = match self.inner.state.entry(address) {
-            Entry::Occupied(entry) => {
-                let account = entry.into_mut();
-                if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
-                    // Load code if not loaded before
-                    account.info.code = Some(self.database.code_by_hash(account.info.code_hash)?);
-                }
-                account
-            }
-            Entry::Vacant(entry) => {
-                let mut account = self
-                    .database
-                    .basic(address)?
-                    .map(|info| info.into())
-                    .unwrap_or_else(|| Account::new_not_existing(transaction_id));
-                // delibrately mark the account as cold since we are only inpecting it, not warming
-                // it.
-                account.mark_cold();
-                entry.insert(account)
-            }
+        let account = inspect_account(self, address)?;
+        // If the account is a delegated account, inspect the delegated account. As in EIP-7702,
+        // only one level of delegation is followed, so that delegation cycles terminate.
+        let target = match &account.info.code {
+            Some(Bytecode::Eip7702(code)) => code.address(),
+            _ => address,
         };
-
-        // If the account is a delegated account, inspect the delegated account.
-        if let Some(Bytecode::Eip7702(code)) = &account.info.code {
-            let address = code.address();
-            return self.inspect_account_delegated(address);
-        }
-
-        // Load account again to bypass the borrow checker.
-        let account = self.inner.state.get_mut(&address).unwrap();
-        Ok(account)
+        inspect_account(self, target)
     }
 
     fn inspect_storage(
-- 
2.43.0


From caef73d3b45ee7d4a5bdd37b13b1fdc0cf30ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:52 +0000
Subject: [PATCH 3/5] fix: inspecting a storage slot must not read through
 EIP-7702 delegation

---
 crates/mega-evm/src/evm/instructions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index ea25070..25df4b5 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1321,11 +1321,11 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         key: StorageKey,
     ) -> Result<&EvmStorageSlot, Self::DBError> {
         let transaction_id = self.transaction_id;
-        let account = self.inspect_account_delegated(address)?;
+        let account = inspect_account(self, address)?;
         if account.storage.contains_key(&key) {
             // Slot already exists, return reference to it
             // Need to reload account to satisfy borrow checker
-            let account = self.inspect_account_delegated(address)?;
+            let account = inspect_account(self, address)?;
             return Ok(account.storage.get(&key).unwrap());
         }
         // Slot doesn't exist, load from DB and insert
@@ -1334,7 +1334,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         // delibrately mark the slot as cold since we are only inpecting it, not warming it
         slot.mark_cold();
         // Load account again to bypass the borrow checker and insert the slot
-        let account = self.inspect_account_delegated(address)?;
+        let account = inspect_account(self, address)?;
         account.storage.insert(key, slot);
         // Return reference to the newly inserted slot
         Ok(account.storage.get(&key).expect("slot should exist"))
-- 
2.43.0


From 79c8974f8532def5d382ea9cd6e9fe6f4a428547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:52 +0000
Subject: [PATCH 4/5] fix: setting the block of a context must refresh dynamic
 storage gas prices

---
 crates/mega-evm/src/evm/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 6df9ccb..3aba185 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -556,9 +556,14 @@ impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextTr for MegaContext<DB, ExtE
 /// This implementation provides methods to update the context state, with
 /// special handling for transaction updates to reset internal state.
 impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextSetters for MegaContext<DB, ExtEnvs> {
+    fn set_block(&mut self, block: Self::Block) {
+        self.inner.set_block(block);
+        // Reset internal state for new block
+        self.on_new_block();
+    }
+
     delegate! {
         to self.inner {
-            fn set_block(&mut self, block: Self::Block);
             fn set_tx(&mut self, tx: Self::Tx);
         }
     }
-- 
2.43.0


From 1be6049ff2db04ceb984d654b6719f3e71cc9447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:16 +0000
Subject: [PATCH 5/5] fix: CREATE2 metering must not read init code beyond the
 current memory

---
 crates/mega-evm/src/evm/instructions.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 25df4b5..2234a67 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -5,7 +5,7 @@ use crate::{
     AdditionalLimit, ExternalEnvTypes, HostExt, MegaContext, MegaSpecId,
 };
 use alloy_evm::Database;
-use alloy_primitives::{keccak256, Address, Bytes, U256};
+use alloy_primitives::{keccak256, Address, U256};
 use revm::{
     context::{ContextTr, JournalTr},
     handler::instructions::{EthInstructions, InstructionProvider},
@@ -870,11 +870,25 @@ pub mod storage_gas_ext {
                 context.interpreter.halt(InstructionResult::StackUnderflow);
                 return;
             };
-            let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
             let initcode_len = as_usize_or_fail!(context.interpreter, initcode_len);
-            let code = Bytes::copy_from_slice(
-                context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
-            );
+            if initcode_len > context.host.max_initcode_size() {
+                context.interpreter.halt(InstructionResult::CreateInitCodeSizeLimit);
+                return;
+            }
+            // The memory is only expanded by the wrapped instruction, so the init code may still
+            // (partly) lie beyond its current end, where it reads as zeros. The offset of an empty
+            // init code is irrelevant.
+            let mut code = vec![0u8; initcode_len];
+            if initcode_len != 0 {
+                let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
+                let memory_size = context.interpreter.memory.size();
+                let present = memory_size.saturating_sub(initcode_offset).min(initcode_len);
+                if present != 0 {
+                    code[..present].copy_from_slice(
+                        context.interpreter.memory.slice_len(initcode_offset, present).as_ref(),
+                    );
+                }
+            }
             let initcode_hash = keccak256(&code);
 
             let Some(salt) = context.interpreter.stack.inspect::<3>() else {
-- 
2.43.0

