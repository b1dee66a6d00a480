From 577b882dc05c9a5ef43929e63219c354c4446402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 1/4] fix: bound announced lengths and counts by the buffer
 when decoding

Decoding panicked or aborted on lengths close to the word size (the padding overflowed) and on
element counts beyond what the buffer could hold (the vector was allocated up front).
---
 src/lib.rs                       |  3 ++
 src/receipt/receipt_std.rs       |  7 +++--
 src/restore.rs                   | 50 ++++++++++++++++++++++++++++++++
 src/transaction/types/create.rs  | 37 ++++++++---------------
 src/transaction/types/input.rs   | 13 +++++----
 src/transaction/types/mint.rs    | 13 ++++-----
 src/transaction/types/script.rs  | 31 +++++++-------------
 src/transaction/types/witness.rs |  5 +++-
 8 files changed, 98 insertions(+), 61 deletions(-)
 create mode 100644 src/restore.rs

diff --git a/src/lib.rs b/src/lib.rs
index 5bd0355..30c12aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,6 +31,9 @@ mod receipt;
 #[cfg(feature = "alloc")]
 mod transaction;
 
+#[cfg(feature = "std")]
+mod restore;
+
 #[cfg(feature = "std")]
 mod checked_transaction;
 
diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 2e09c74..ff8d9b4 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -5,6 +5,7 @@ use fuel_types::bytes::{self, SizedBytes, WORD_SIZE};
 use fuel_types::Word;
 
 use crate::receipt::script_result::ScriptExecutionResult;
+use crate::restore::restore_bytes;
 use std::io::{self, Write};
 
 impl io::Read for Receipt {
@@ -269,7 +270,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -329,7 +330,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -392,7 +393,7 @@ impl io::Write for Receipt {
                 let (nonce, buf) = unsafe { bytes::restore_array_unchecked(buf) };
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
-                let (count, data, _) = bytes::restore_bytes(buf)?;
+                let (count, data, _) = restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
diff --git a/src/restore.rs b/src/restore.rs
new file mode 100644
index 0000000..065834b
--- /dev/null
+++ b/src/restore.rs
@@ -0,0 +1,50 @@
+//! Checked decoding of lengths and counts that are read from untrusted bytes.
+
+use fuel_types::bytes::{self, WORD_SIZE};
+use fuel_types::Word;
+
+use std::io;
+
+/// Same as [`bytes::restore_raw_bytes`], but lengths beyond the buffer are an error even if padding
+/// them to the word size would overflow.
+pub(crate) fn restore_raw_bytes(buf: &[u8], len: usize) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if len > buf.len() {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_raw_bytes(buf, len)
+}
+
+/// Same as [`bytes::restore_bytes`], but lengths beyond the buffer are an error even if padding them
+/// to the word size would overflow.
+pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    let (len, rest): (Word, _) = bytes::restore_number(buf)?;
+
+    let (n, data, rest) = restore_raw_bytes(rest, len as usize)?;
+
+    Ok((WORD_SIZE + n, data, rest))
+}
+
+/// Decode `count` consecutive items, returning the amount of consumed bytes, the items and the
+/// remainder of the buffer.
+///
+/// The items are allocated as they are decoded, so the memory used is proportional to the buffer and
+/// not to the announced `count`.
+pub(crate) fn restore_items<T>(mut buf: &[u8], count: usize) -> io::Result<(usize, Vec<T>, &[u8])>
+where
+    T: Default + io::Write,
+{
+    let mut n = 0;
+    let mut items = Vec::new();
+
+    for _ in 0..count {
+        let mut item = T::default();
+        let len = item.write(buf)?;
+
+        buf = &buf[len..];
+        n += len;
+        items.push(item);
+    }
+
+    Ok((n, items, buf))
+}
diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index c6a2001..b0030d7 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -19,6 +19,9 @@ use std::io;
 #[cfg(feature = "alloc")]
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::restore::restore_items;
+
 #[cfg(feature = "std")]
 use fuel_types::bytes::SerializableVec;
 
@@ -641,37 +644,21 @@ impl io::Write for Create {
         let (inputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (witnesses_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
-        let (salt, mut buf) = unsafe { bytes::restore_array_unchecked(buf) };
+        let (salt, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
         let salt = salt.into();
 
-        let mut storage_slots = vec![StorageSlot::default(); storage_slots_len as usize];
-        n += StorageSlot::SLOT_SIZE * storage_slots_len as usize;
-        for storage_slot in storage_slots.iter_mut() {
-            let _ = storage_slot.write(buf)?;
-            buf = &buf[StorageSlot::SLOT_SIZE..];
-        }
+        let (size, storage_slots, buf) = restore_items(buf, storage_slots_len as usize)?;
+        n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
-            let input_len = input.write(buf)?;
-            buf = &buf[input_len..];
-            n += input_len;
-        }
+        let (size, inputs, buf) = restore_items(buf, inputs_len)?;
+        n += size;
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
-            let output_len = output.write(buf)?;
-            buf = &buf[output_len..];
-            n += output_len;
-        }
+        let (size, outputs, buf) = restore_items(buf, outputs_len)?;
+        n += size;
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
-            let witness_len = witness.write(buf)?;
-            buf = &buf[witness_len..];
-            n += witness_len;
-        }
+        let (size, witnesses, _) = restore_items(buf, witnesses_len)?;
+        n += size;
 
         *self = Create {
             gas_price,
diff --git a/src/transaction/types/input.rs b/src/transaction/types/input.rs
index 6c3562b..0658140 100644
--- a/src/transaction/types/input.rs
+++ b/src/transaction/types/input.rs
@@ -6,6 +6,9 @@ use fuel_types::{Address, AssetId, Bytes32, ContractId, MessageId, Word};
 
 use core::mem;
 
+#[cfg(feature = "std")]
+use crate::restore::restore_raw_bytes;
+
 #[cfg(feature = "std")]
 use fuel_types::bytes::{Deserializable, SizedBytes, WORD_SIZE};
 
@@ -733,10 +736,10 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let owner = owner.into();
@@ -817,13 +820,13 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, data, buf) = bytes::restore_raw_bytes(buf, data_len)?;
+                let (size, data, buf) = restore_raw_bytes(buf, data_len)?;
                 n += size;
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let message_id = message_id.into();
diff --git a/src/transaction/types/mint.rs b/src/transaction/types/mint.rs
index f52861a..c9948fd 100644
--- a/src/transaction/types/mint.rs
+++ b/src/transaction/types/mint.rs
@@ -13,6 +13,9 @@ use std::io;
 #[cfg(feature = "alloc")]
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::restore::restore_items;
+
 #[cfg(feature = "std")]
 use fuel_types::bytes::{self, Deserializable, SerializableVec};
 
@@ -285,14 +288,10 @@ impl io::Write for Mint {
         // Safety: buffer size is checked
         let tx_pointer = TxPointer::from_bytes(buf)?;
         let buf = &buf[tx_pointer.serialized_size()..];
-        let (outputs_len, mut buf) = unsafe { bytes::restore_usize_unchecked(buf) };
+        let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
-            let output_len = output.write(buf)?;
-            buf = &buf[output_len..];
-            n += output_len;
-        }
+        let (size, outputs, _) = restore_items(buf, outputs_len)?;
+        n += size;
 
         *self = Mint {
             tx_pointer,
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 666796d..acaab33 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -19,6 +19,9 @@ use std::io;
 use alloc::vec::Vec;
 use fuel_asm::Opcode;
 
+#[cfg(feature = "std")]
+use crate::restore::{restore_items, restore_raw_bytes};
+
 #[cfg(feature = "std")]
 use fuel_types::bytes::SerializableVec;
 
@@ -630,32 +633,20 @@ impl io::Write for Script {
 
         let receipts_root = receipts_root.into();
 
-        let (size, script, buf) = bytes::restore_raw_bytes(buf, script_len)?;
+        let (size, script, buf) = restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, buf) = restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
-            let input_len = input.write(buf)?;
-            buf = &buf[input_len..];
-            n += input_len;
-        }
+        let (size, inputs, buf) = restore_items(buf, inputs_len)?;
+        n += size;
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
-            let output_len = output.write(buf)?;
-            buf = &buf[output_len..];
-            n += output_len;
-        }
+        let (size, outputs, buf) = restore_items(buf, outputs_len)?;
+        n += size;
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
-            let witness_len = witness.write(buf)?;
-            buf = &buf[witness_len..];
-            n += witness_len;
-        }
+        let (size, witnesses, _) = restore_items(buf, witnesses_len)?;
+        n += size;
 
         *self = Script {
             gas_price,
diff --git a/src/transaction/types/witness.rs b/src/transaction/types/witness.rs
index e7b5211..4c0499d 100644
--- a/src/transaction/types/witness.rs
+++ b/src/transaction/types/witness.rs
@@ -8,6 +8,9 @@ use rand::{
 
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::restore::restore_bytes;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -89,7 +92,7 @@ impl io::Read for Witness {
 #[cfg(feature = "std")]
 impl io::Write for Witness {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        bytes::restore_bytes(buf).map(|(n, data, _)| {
+        restore_bytes(buf).map(|(n, data, _)| {
             self.data = data;
             n
         })
-- 
2.43.0


From f0b514c06beb13571b5f502fe1750a1a53ffbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 2/4] fix: zero the bytes of an encoded receipt that no field
 writes

The tail of ScriptResult and the padding of MessageOut were left as found in the caller's buffer.
---
 src/receipt/receipt_std.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index ff8d9b4..b9a60bf 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -16,6 +16,9 @@ impl io::Read for Receipt {
             return Err(bytes::eof());
         }
 
+        // Not every variant writes all the bytes of its serialized size
+        buf[..len].fill(0);
+
         match self {
             Self::Call {
                 id,
-- 
2.43.0


From 605e2820093539fa196c3bf328c5035d0bdc5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 3/4] fix: reject inputs whose amounts overflow the balance of
 an asset

The sum of the input amounts panicked in debug builds and wrapped around in release builds.
---
 src/checked_transaction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checked_transaction.rs b/src/checked_transaction.rs
index 3a8ef7d..21b589e 100644
--- a/src/checked_transaction.rs
+++ b/src/checked_transaction.rs
@@ -312,7 +312,10 @@ where
         }
         _ => None,
     }) {
-        *balances.entry(asset_id).or_default() += amount;
+        let balance = balances.entry(asset_id).or_default();
+        *balance = balance
+            .checked_add(*amount)
+            .ok_or(CheckError::ArithmeticOverflow)?;
     }
 
     // Deduct fee from base asset
-- 
2.43.0


From 2900acb2aa0a7ebaaa0868c4269ac0f506f47115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 4/4] fix: reject non-ASCII text formats instead of panicking

UtxoId and TxPointer sliced the string within a character.
---
 src/transaction/types/utxo_id.rs | 7 +++++--
 src/tx_pointer.rs                | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/transaction/types/utxo_id.rs b/src/transaction/types/utxo_id.rs
index c4c89b3..db5791e 100644
--- a/src/transaction/types/utxo_id.rs
+++ b/src/transaction/types/utxo_id.rs
@@ -88,9 +88,12 @@ impl str::FromStr for UtxoId {
         let utxo_id = if s.is_empty() {
             UtxoId::new(Bytes32::default(), 0)
         } else if s.len() > 2 {
+            let index = s.len() - 2;
+            let (tx_id, output_index) = (s.get(..index).ok_or(ERR)?, s.get(index..).ok_or(ERR)?);
+
             UtxoId::new(
-                Bytes32::from_str(&s[..s.len() - 2])?,
-                u8::from_str_radix(&s[s.len() - 2..], 16).map_err(|_| ERR)?,
+                Bytes32::from_str(tx_id)?,
+                u8::from_str_radix(output_index, 16).map_err(|_| ERR)?,
             )
         } else {
             UtxoId::new(TxId::default(), u8::from_str_radix(s, 16).map_err(|_| ERR)?)
diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index b0d66bf..2871323 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -72,8 +72,11 @@ impl str::FromStr for TxPointer {
             return Err(ERR);
         }
 
-        let block_height = u32::from_str_radix(&s[..8], 16).map_err(|_| ERR)?;
-        let tx_index = u16::from_str_radix(&s[8..12], 16).map_err(|_| ERR)?;
+        let block_height = s.get(..8).ok_or(ERR)?;
+        let tx_index = s.get(8..12).ok_or(ERR)?;
+
+        let block_height = u32::from_str_radix(block_height, 16).map_err(|_| ERR)?;
+        let tx_index = u16::from_str_radix(tx_index, 16).map_err(|_| ERR)?;
 
         Ok(Self::new(block_height, tx_index))
     }
-- 
2.43.0

