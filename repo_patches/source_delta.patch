From b02ebf1f2a4912a8f9fe937cd9c888661a7cefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 01/28] fix: encode and decode Tx as its raw transaction bytes

---
 bitcoin-cash/src/tx.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/bitcoin-cash/src/tx.rs b/bitcoin-cash/src/tx.rs
index a945abd..e9707ac 100644
--- a/bitcoin-cash/src/tx.rs
+++ b/bitcoin-cash/src/tx.rs
@@ -1,5 +1,5 @@
 use crate::{
-    BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
+    error::Result, BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
 };
 use serde::{Deserialize, Serialize};
 
@@ -54,19 +54,33 @@ pub struct UnhashedTx {
     pub lock_time: u32,
 }
 
-#[bitcoin_code(crate = "crate")]
-#[derive(BitcoinCode, Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
 #[serde(rename_all = "camelCase")]
 pub struct Tx {
-    #[bitcoin_code(skip)]
     unhashed_tx: UnhashedTx,
-
-    #[bitcoin_code(skip)]
     hash: Sha256d,
-
     raw: ByteArray,
 }
 
+impl BitcoinCode for Tx {
+    fn ser(&self) -> ByteArray {
+        self.raw.clone()
+    }
+
+    fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
+        let (unhashed_tx, rest) = UnhashedTx::deser_rest(data.clone())?;
+        let raw_len = data.len() - rest.len();
+        let (raw, _) = data.split(raw_len)?;
+        let hash = Sha256d::digest(raw.clone());
+        let tx = Tx {
+            unhashed_tx,
+            hash,
+            raw,
+        };
+        Ok((tx, rest))
+    }
+}
+
 impl TxInput {
     pub fn new(prev_out: TxOutpoint, script: Script, sequence: u32) -> Self {
         TxInput {
-- 
2.43.0


From 118bb157d5fb2428e948220fbee83082be6f30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 02/28] fix: deserialize ByteArray from binary formats that do
 not lend their buffer

---
 bitcoin-cash-base/src/byte_array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 1ddd85e..cb4b491 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -645,8 +645,8 @@ impl<'de> serde::Deserialize<'de> for ByteArray {
             let data = hex::decode(&hex).map_err(serde::de::Error::custom)?;
             Ok(ByteArray::new_unnamed(data))
         } else {
-            Ok(ByteArray::from_slice_unnamed(
-                <&[u8] as serde::Deserialize<'de>>::deserialize(deserializer)?,
+            Ok(ByteArray::new_unnamed(
+                <Vec<u8> as serde::Deserialize<'de>>::deserialize(deserializer)?,
             ))
         }
     }
-- 
2.43.0


From f9ab4394d9a84e2d64d7b6da7a7f0450fb53a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 03/28] fix: deserialize Address from binary formats that do
 not lend their buffer

---
 bitcoin-cash/src/address.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index 03a41ef..e5dd5ec 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -211,7 +211,7 @@ impl<'a> Address<'a> {
 struct SerAddress<'a> {
     addr_type: AddressType,
     hash: [u8; 20],
-    prefix: &'a str,
+    prefix: Cow<'a, str>,
 }
 
 impl Serialize for Address<'_> {
@@ -225,7 +225,7 @@ impl Serialize for Address<'_> {
             SerAddress {
                 addr_type: self.addr_type,
                 hash: self.hash.as_slice().try_into().expect("Address hash not 20 bytes"),
-                prefix: self.prefix_str(),
+                prefix: self.prefix_str().into(),
             }.serialize(serializer)
         }
     }
@@ -241,7 +241,7 @@ impl<'de> Deserialize<'de> for Address<'static> {
             Address::from_cash_addr(s).map_err(serde::de::Error::custom)
         } else {
             let ser_address = SerAddress::deserialize(deserializer)?;
-            Ok(Address::from_hash(ser_address.prefix, ser_address.addr_type, Hash160::new(ser_address.hash)).into_owned_address())
+            Ok(Address::from_hash(ser_address.prefix.into_owned(), ser_address.addr_type, Hash160::new(ser_address.hash)).into_owned_address())
         }
     }
 }
-- 
2.43.0


From c874aba13f19c3c989ddd94ec05415a5380d5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 04/28] fix: decode an empty buffer as an empty list of items

---
 bitcoin-cash/src/serializer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash/src/serializer.rs b/bitcoin-cash/src/serializer.rs
index db988f0..a496370 100644
--- a/bitcoin-cash/src/serializer.rs
+++ b/bitcoin-cash/src/serializer.rs
@@ -13,12 +13,10 @@ where
 
 pub fn decode_bitcoin_code_all<T: BitcoinCode>(mut byte_array: ByteArray) -> Result<Vec<T>> {
     let mut items = Vec::new();
-    loop {
+    while !byte_array.is_empty() {
         let (item, rest) = T::deser_rest(byte_array)?;
         byte_array = rest;
         items.push(item);
-        if byte_array.is_empty() {
-            return Ok(items);
-        }
     }
+    Ok(items)
 }
-- 
2.43.0


From 1068736ca35870a2ff2ee3a1541d358b0a4f8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 05/28] fix: script_destination of a hash of the wrong length
 is unknown, not a panic

---
 bitcoin-cash/src/destination.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/destination.rs b/bitcoin-cash/src/destination.rs
index 627595a..3e4096c 100644
--- a/bitcoin-cash/src/destination.rs
+++ b/bitcoin-cash/src/destination.rs
@@ -22,7 +22,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
 
     use PatternOp::Array;
     match pattern_ops.as_slice() {
-        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] => {
+        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -31,7 +31,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
                 ),
             )
         }
-        [OP_HASH160, Array(hash), OP_EQUAL] => {
+        [OP_HASH160, Array(hash), OP_EQUAL] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
-- 
2.43.0


From 37309a940ba5653eb9b39bc546e2622ed074cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 06/28] fix: refuse cash addresses whose payload is not a 20
 byte hash

---
 bitcoin-cash/src/address.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index e5dd5ec..24fdcde 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -42,6 +42,8 @@ pub enum CashAddrError {
     InvalidBase32Letter(usize, u8),
     #[error("Invalid address type {0}")]
     InvalidAddressType(u8),
+    #[error("Invalid payload length {0}")]
+    InvalidPayloadLength(usize),
 }
 
 impl Prefix {
@@ -382,6 +384,10 @@ fn _from_cash_addr<'a>(
     if !_verify_checksum(&prefix, decoded.iter().cloned()) {
         return Err(CashAddrError::InvalidChecksum);
     }
+    // 1 byte version and 20 bytes hash in 34 letters, followed by 8 letters of checksum
+    if decoded.len() != 42 {
+        return Err(CashAddrError::InvalidPayloadLength(decoded.len()));
+    }
     let converted = _convert_bits(decoded.iter().cloned(), 5, 8, true).unwrap();
     let mut addr = [0; 20];
     addr.copy_from_slice(&converted[1..converted.len() - 6]);
-- 
2.43.0


From 7f821ded27b7b6b37d86ef0abd87a0b79fc94ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 07/28] fix: do not allocate for items a vector cannot contain

---
 bitcoin-cash/src/bitcoin_code.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/bitcoin_code.rs b/bitcoin-cash/src/bitcoin_code.rs
index 0b7ba91..ab5d337 100644
--- a/bitcoin-cash/src/bitcoin_code.rs
+++ b/bitcoin-cash/src/bitcoin_code.rs
@@ -64,7 +64,8 @@ impl<T: BitcoinCode> BitcoinCode for Vec<T> {
 
     fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
         let (len, mut byte_array) = read_size(data)?;
-        let mut vec = Vec::with_capacity(len);
+        // The length is not trustworthy until that many items have been read.
+        let mut vec = Vec::with_capacity(len.min(byte_array.len() / std::mem::size_of::<T>().max(1)));
         for _ in 0..len {
             let (item, rest) = T::deser_rest(byte_array)?;
             vec.push(item);
-- 
2.43.0


From a59fb19cccbec1ba870292a20016bf3a92ac1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 08/28] fix: do not allocate for a push longer than the script

---
 bitcoin-cash/src/script.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 7cbc33d..08361d0 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -214,6 +214,9 @@ pub fn deserialize_ops(bytes: &[u8]) -> error::Result<Vec<Op>> {
                 continue;
             }
         };
+        if push_len > bytes.len().saturating_sub(i) {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let mut vec = vec![0; push_len];
         cur.read_exact(&mut vec)?;
         i += push_len;
-- 
2.43.0


From 9b4941437d44d4a78809683ce5dd1c9bd3c81b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 09/28] fix: refuse integers which do not fit instead of
 wrapping around

---
 bitcoin-cash-base/src/encoding_utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitcoin-cash-base/src/encoding_utils.rs b/bitcoin-cash-base/src/encoding_utils.rs
index db3cc59..dcf6837 100644
--- a/bitcoin-cash-base/src/encoding_utils.rs
+++ b/bitcoin-cash-base/src/encoding_utils.rs
@@ -95,6 +95,7 @@ pub fn encode_bool(b: bool) -> Vec<u8> {
 
 fn try_shl(a: InnerInteger, b: u32, vec: &[u8]) -> Result<InnerInteger, String> {
     a.checked_shl(b)
+        .filter(|shifted| shifted >> b == a)
         .ok_or_else(|| format!("Overflow for {}", hex::encode(vec)))
 }
 
-- 
2.43.0


From 799482f4081a59e7a52768da3bf16cf8f3d253b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 10/28] fix: refuse hex of the wrong length for a fixed byte
 array

---
 bitcoin-cash-base/src/byte_array.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index cb4b491..7158549 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -724,6 +724,12 @@ where
                 data.reverse();
             }
             let mut array = T::default();
+            if array.as_ref().len() != data.len() {
+                return Err(serde::de::Error::custom(ByteArrayError::InvalidSlice {
+                    expected: array.as_ref().len(),
+                    actual: data.len(),
+                }));
+            }
             array.as_mut().copy_from_slice(&data);
             Ok(FixedByteArray::new_unnamed(array))
         } else {
-- 
2.43.0


From a04c604aba6452bd6f8b5f3c97661a6527cdc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 11/28] fix: import byte arrays of the JSON form without
 recursion

---
 bitcoin-cash/src/serialize_json.rs | 103 ++++++++++++++++++++---------
 1 file changed, 72 insertions(+), 31 deletions(-)

diff --git a/bitcoin-cash/src/serialize_json.rs b/bitcoin-cash/src/serialize_json.rs
index 3a6a2ab..5666113 100644
--- a/bitcoin-cash/src/serialize_json.rs
+++ b/bitcoin-cash/src/serialize_json.rs
@@ -19,8 +19,14 @@ struct JsonData {
 
     #[serde(skip)]
     data_indices: BiMap<Arc<[u8]>, usize>,
+
+    #[serde(skip)]
+    decoded: Vec<ByteArray>,
 }
 
+/// How deeply the preimages of an imported byte array may be nested.
+const MAX_PREIMAGE_DEPTH: usize = 1000;
+
 struct JsonByteArray {
     data_idx: usize,
     function: Function,
@@ -95,6 +101,12 @@ pub enum JsonError {
     #[error("Invalid data_idx: {idx}")]
     InvalidStringIdx { idx: usize },
 
+    #[error("Invalid byte_array_idx: {idx}")]
+    InvalidByteArrayIdx { idx: usize },
+
+    #[error("Byte array {idx} is nested too deeply")]
+    PreimageTooDeep { idx: usize },
+
     #[error("Invalid hash")]
     InvalidHash,
 
@@ -162,6 +174,7 @@ impl JsonTx {
             outputs,
             ..
         } = self;
+        data.decode_byte_arrays()?;
         for input in inputs.iter() {
             let input = TxInput {
                 prev_out: TxOutpoint {
@@ -346,39 +359,67 @@ impl JsonData {
         }
     }
 
-    fn get_byte_array(&mut self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
-        let preimage = self.byte_arrays[byte_array_idx]
-            .preimage_indices
-            .clone()
-            .map(|preimage_indices| {
-                preimage_indices
-                    .iter()
-                    .map(|&idx| self.get_byte_array(idx))
-                    .collect::<Result<Vec<_>, _>>()
-            })
-            .map_or(Ok(None), |preimage| preimage.map(Some))?;
-        let json = &self.byte_arrays[byte_array_idx];
-        let data = if let Some(data) = self.data_indices.get_by_right(&json.data_idx) {
-            Arc::clone(data)
-        } else {
-            let data_b64 = self
-                .data_b64
+    /// Byte arrays are exported after their preimages, so each one only refers to earlier ones.
+    fn decode_byte_arrays(&mut self) -> Result<(), JsonError> {
+        let data = self
+            .data_b64
+            .iter()
+            .map(|data_b64| Ok(base64::decode(data_b64)?.into()))
+            .collect::<Result<Vec<Arc<[u8]>>, JsonError>>()?;
+        let mut names = HashMap::new();
+        let mut depths = Vec::with_capacity(self.byte_arrays.len());
+        let mut decoded: Vec<ByteArray> = Vec::with_capacity(self.byte_arrays.len());
+        for (byte_array_idx, json) in self.byte_arrays.iter().enumerate() {
+            let mut depth = 0;
+            let preimage = match &json.preimage_indices {
+                Some(preimage_indices) => {
+                    let mut preimage = Vec::with_capacity(preimage_indices.len());
+                    for &idx in preimage_indices {
+                        let byte_array = decoded
+                            .get(idx)
+                            .ok_or(JsonError::InvalidByteArrayIdx { idx })?;
+                        preimage.push(byte_array.clone());
+                        depth = depth.max(depths[idx] + 1);
+                    }
+                    Some(preimage.into())
+                }
+                None => None,
+            };
+            if depth > MAX_PREIMAGE_DEPTH {
+                return Err(JsonError::PreimageTooDeep {
+                    idx: byte_array_idx,
+                });
+            }
+            let array_data = data
                 .get(json.data_idx)
                 .ok_or(JsonError::InvalidDataIdx { idx: json.data_idx })?;
-            let data = base64::decode(data_b64)?.into();
-            self.data_indices.insert(Arc::clone(&data), json.data_idx);
-            data
-        };
-        let name = json
-            .name_idx
-            .map(|name_idx| self.get_string(name_idx).map(Clone::clone).map(Arc::new))
-            .map_or(Ok(None), |name| name.map(Some))?;
-        Ok(ByteArray::from_preimage(
-            data,
-            name,
-            json.function,
-            preimage.map(Into::into),
-        ))
+            let name = match json.name_idx {
+                Some(name_idx) => {
+                    let name = self.get_string(name_idx)?;
+                    let name = names.entry(name_idx).or_insert_with(|| Arc::new(name.clone()));
+                    Some(Arc::clone(name))
+                }
+                None => None,
+            };
+            depths.push(depth);
+            decoded.push(ByteArray::from_preimage(
+                Arc::clone(array_data),
+                name,
+                json.function,
+                preimage,
+            ));
+        }
+        self.decoded = decoded;
+        Ok(())
+    }
+
+    fn get_byte_array(&self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
+        self.decoded
+            .get(byte_array_idx)
+            .cloned()
+            .ok_or(JsonError::InvalidByteArrayIdx {
+                idx: byte_array_idx,
+            })
     }
 
     #[allow(clippy::ptr_arg)]
-- 
2.43.0


From a1dfdc282f393f01204bf5ba77199932a8d597a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 12/28] fix: do not print while signing, which panics when the
 output is gone

---
 bitcoin-cash/src/tx_builder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitcoin-cash/src/tx_builder.rs b/bitcoin-cash/src/tx_builder.rs
index 5f4c6b6..f3dbaca 100644
--- a/bitcoin-cash/src/tx_builder.rs
+++ b/bitcoin-cash/src/tx_builder.rs
@@ -492,7 +492,6 @@ impl<'b> UnsignedTx<'b> {
         input_ref: InputReference<S>,
         sigs: S::Signatures,
     ) -> Result<()> {
-        println!("Signing input {}", input_ref.input_idx());
         self.sign_input_dyn(input_ref.input_idx, Box::new(sigs))
     }
 
-- 
2.43.0


From 7d97a5c3ba2a7f1ac07da7feaae5cd9cb312b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 13/28] fix: account for values beyond 64 bits while building

---
 bitcoin-cash/src/tx_builder.rs | 44 +++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/bitcoin-cash/src/tx_builder.rs b/bitcoin-cash/src/tx_builder.rs
index f3dbaca..13b89d2 100644
--- a/bitcoin-cash/src/tx_builder.rs
+++ b/bitcoin-cash/src/tx_builder.rs
@@ -339,11 +339,11 @@ impl<'b> TxBuilder<'b> {
     }
 
     pub fn build(self) -> Result<UnsignedTx<'b>> {
-        let known_output_amount = self.known_output_sum();
-        let total_input_amount = self.input_sum();
+        let known_output_amount = self.known_output_total();
+        let total_input_amount = self.input_total();
         if known_output_amount > total_input_amount {
             return Err(Error::InsufficientInputAmount {
-                amount: known_output_amount - total_input_amount,
+                amount: saturate(known_output_amount - total_input_amount),
             });
         }
         let mut total_leftover = total_input_amount - known_output_amount;
@@ -366,21 +366,21 @@ impl<'b> TxBuilder<'b> {
                 ..
             } = self.outputs[idx]
             {
-                if total_leftover <= lower_bound {
+                if total_leftover <= lower_bound.into() {
                     continue;
                 }
-                let max_leftover = total_leftover.min(upper_bound);
+                let max_leftover = saturate(total_leftover).min(upper_bound);
                 leftover_amounts.insert(idx, max_leftover);
                 let new_size = self.estimate_size(self.make_outputs(&leftover_amounts));
-                let fee = new_size as u64 * self.fee_per_kb / 1000;
+                let fee = new_size as u128 * u128::from(self.fee_per_kb) / 1000;
                 if fee <= total_leftover {
-                    let leftover = (total_leftover - fee).min(upper_bound);
+                    let leftover = saturate(total_leftover - fee).min(upper_bound);
                     if leftover <= lower_bound {
                         leftover_amounts.remove(&idx);
                         continue;
                     }
                     leftover_amounts.insert(idx, leftover);
-                    total_leftover -= leftover;
+                    total_leftover -= u128::from(leftover);
                     estimated_size = Some(new_size);
                 } else {
                     leftover_amounts.remove(&idx);
@@ -408,20 +408,30 @@ impl<'b> TxBuilder<'b> {
     }
 
     pub fn known_output_sum(&self) -> u64 {
-        self
-            .outputs
-            .iter()
-            .map(|output| output.get_value())
-            .sum::<u64>()
+        saturate(self.known_output_total())
     }
 
     pub fn input_sum(&self) -> u64 {
-        self
-            .inputs
+        saturate(self.input_total())
+    }
+
+    fn known_output_total(&self) -> u128 {
+        self.outputs
             .iter()
-            .map(|input| input.input.value)
-            .sum::<u64>()
+            .map(|output| u128::from(output.get_value()))
+            .sum()
     }
+
+    fn input_total(&self) -> u128 {
+        self.inputs
+            .iter()
+            .map(|input| u128::from(input.input.value))
+            .sum()
+    }
+}
+
+fn saturate(amount: u128) -> u64 {
+    amount.min(std::u64::MAX.into()) as u64
 }
 
 impl TxBuilderOutput {
-- 
2.43.0


From 8f0a07cf8d138abb021a99a730a1c2eeb61eb8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 14/28] fix: the Rust back end accepted signatures with a high
 S

---
 bitcoin-cash-ecc/src/rust_ecc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash-ecc/src/rust_ecc.rs b/bitcoin-cash-ecc/src/rust_ecc.rs
index a6ae199..e0ff317 100644
--- a/bitcoin-cash-ecc/src/rust_ecc.rs
+++ b/bitcoin-cash-ecc/src/rust_ecc.rs
@@ -37,7 +37,8 @@ impl ECC for RustECC {
         let sig = Signature::parse_der(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
         let pubkey = PublicKey::parse_slice(pubkey, Some(PublicKeyFormat::Compressed))
             .map_err(|_| Error::InvalidPubkey)?;
-        Ok(secp256k1::verify(&msg, &sig, &pubkey))
+        // like the C library, accept only the canonical (low) S
+        Ok(!sig.s.is_high() && secp256k1::verify(&msg, &sig, &pubkey))
     }
 
     fn derive_pubkey(&self, secret_key: &[u8]) -> Result<Pubkey> {
-- 
2.43.0


From 1b2f746eccf7d395a1a9e5ff931a62eeeb70a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 15/28] fix: the Rust back end refused uncompressed public keys

---
 bitcoin-cash-ecc/src/rust_ecc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-ecc/src/rust_ecc.rs b/bitcoin-cash-ecc/src/rust_ecc.rs
index e0ff317..c39f3c6 100644
--- a/bitcoin-cash-ecc/src/rust_ecc.rs
+++ b/bitcoin-cash-ecc/src/rust_ecc.rs
@@ -2,6 +2,7 @@ use bitcoin_cash::{
     error::{Error, Result},
     ByteArray, Function, Pubkey, ECC,
 };
+use secp256k1::util::FULL_PUBLIC_KEY_SIZE;
 use secp256k1::{Message, PublicKey, PublicKeyFormat, SecretKey, Signature};
 
 pub struct RustECC;
@@ -35,8 +36,12 @@ impl ECC for RustECC {
             actual: msg_array.len(),
         })?;
         let sig = Signature::parse_der(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
-        let pubkey = PublicKey::parse_slice(pubkey, Some(PublicKeyFormat::Compressed))
-            .map_err(|_| Error::InvalidPubkey)?;
+        let format = match pubkey.len() {
+            FULL_PUBLIC_KEY_SIZE => PublicKeyFormat::Full,
+            _ => PublicKeyFormat::Compressed,
+        };
+        let pubkey =
+            PublicKey::parse_slice(pubkey, Some(format)).map_err(|_| Error::InvalidPubkey)?;
         // like the C library, accept only the canonical (low) S
         Ok(!sig.s.is_high() && secp256k1::verify(&msg, &sig, &pubkey))
     }
-- 
2.43.0


From fa82e2649ad8a7e3b94b9db6016c135fb13197f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 16/28] fix: refuse signatures with numbers out of range in
 both back ends alike

---
 bitcoin-cash-ecc/src/c_ecc.rs    | 15 +++++++++++++--
 bitcoin-cash-ecc/src/rust_ecc.rs | 13 +++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash-ecc/src/c_ecc.rs b/bitcoin-cash-ecc/src/c_ecc.rs
index a679f8a..9b2e0a6 100644
--- a/bitcoin-cash-ecc/src/c_ecc.rs
+++ b/bitcoin-cash-ecc/src/c_ecc.rs
@@ -17,6 +17,16 @@ impl Default for CECC {
     }
 }
 
+/// Numbers which are zero or not below the group order are parsed as zero, and cannot be signatures.
+fn check_range(sig: Signature) -> Result<Signature> {
+    let compact = sig.serialize_compact();
+    let (r, s) = compact.split_at(32);
+    if r.iter().all(|&byte| byte == 0) || s.iter().all(|&byte| byte == 0) {
+        return Err(Error::InvalidSignatureFormat);
+    }
+    Ok(sig)
+}
+
 impl ECC for CECC {
     fn sign(&self, secret_key: &[u8], msg_array: impl Into<ByteArray>) -> Result<ByteArray> {
         let msg_array = msg_array.into();
@@ -38,6 +48,7 @@ impl ECC for CECC {
             actual: msg_array.len(),
         })?;
         let sig = Signature::from_der(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
+        let sig = check_range(sig)?;
         let pubkey = PublicKey::from_slice(pubkey).map_err(|_| Error::InvalidPubkey)?;
         match self.curve.verify(&msg, &sig, &pubkey) {
             Ok(()) => Ok(true),
@@ -60,8 +71,8 @@ impl ECC for CECC {
     }
 
     fn normalize_sig(&self, sig_ser: &[u8]) -> Result<Vec<u8>> {
-        let mut sig =
-            Signature::from_der_lax(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
+        let sig = Signature::from_der_lax(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
+        let mut sig = check_range(sig)?;
         sig.normalize_s();
         Ok(sig.serialize_der().to_vec())
     }
diff --git a/bitcoin-cash-ecc/src/rust_ecc.rs b/bitcoin-cash-ecc/src/rust_ecc.rs
index c39f3c6..e292ccf 100644
--- a/bitcoin-cash-ecc/src/rust_ecc.rs
+++ b/bitcoin-cash-ecc/src/rust_ecc.rs
@@ -13,6 +13,14 @@ impl Default for RustECC {
     }
 }
 
+/// Numbers which are zero or not below the group order are parsed as zero, and cannot be signatures.
+fn check_range(sig: Signature) -> Result<Signature> {
+    if sig.r.is_zero() || sig.s.is_zero() {
+        return Err(Error::InvalidSignatureFormat);
+    }
+    Ok(sig)
+}
+
 impl ECC for RustECC {
     fn sign(&self, secret_key: &[u8], msg_array: impl Into<ByteArray>) -> Result<ByteArray> {
         let msg_array = msg_array.into();
@@ -36,6 +44,7 @@ impl ECC for RustECC {
             actual: msg_array.len(),
         })?;
         let sig = Signature::parse_der(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
+        let sig = check_range(sig)?;
         let format = match pubkey.len() {
             FULL_PUBLIC_KEY_SIZE => PublicKeyFormat::Full,
             _ => PublicKeyFormat::Compressed,
@@ -57,8 +66,8 @@ impl ECC for RustECC {
     }
 
     fn normalize_sig(&self, sig_ser: &[u8]) -> Result<Vec<u8>> {
-        let mut sig =
-            Signature::parse_der_lax(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
+        let sig = Signature::parse_der_lax(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
+        let mut sig = check_range(sig)?;
         sig.normalize_s();
         Ok(sig.serialize_der().as_ref().to_vec())
     }
-- 
2.43.0


From 3a8f264b937d383563983cec4daaeb6b929d039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 17/28] fix: the Rust back end normalised the highest low S to
 a high S

---
 bitcoin-cash-ecc/src/rust_ecc.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-ecc/src/rust_ecc.rs b/bitcoin-cash-ecc/src/rust_ecc.rs
index e292ccf..7333695 100644
--- a/bitcoin-cash-ecc/src/rust_ecc.rs
+++ b/bitcoin-cash-ecc/src/rust_ecc.rs
@@ -21,6 +21,17 @@ fn check_range(sig: Signature) -> Result<Signature> {
     Ok(sig)
 }
 
+/// Whether S is above half the group order (`Scalar::is_high` errs for exactly half, rounded down).
+fn is_high(sig: &Signature) -> bool {
+    sig.s.b32() > (-sig.s.clone()).b32()
+}
+
+fn normalize(sig: &mut Signature) {
+    if is_high(sig) {
+        sig.s = -sig.s.clone();
+    }
+}
+
 impl ECC for RustECC {
     fn sign(&self, secret_key: &[u8], msg_array: impl Into<ByteArray>) -> Result<ByteArray> {
         let msg_array = msg_array.into();
@@ -33,7 +44,7 @@ impl ECC for RustECC {
             actual: msg_array.len(),
         })?;
         let mut sig = secp256k1::sign(&msg, &sk).0;
-        sig.normalize_s();
+        normalize(&mut sig);
         let sig = sig.serialize_der().as_ref().to_vec();
         Ok(msg_array.apply_function(sig, Function::EcdsaSign))
     }
@@ -52,7 +63,7 @@ impl ECC for RustECC {
         let pubkey =
             PublicKey::parse_slice(pubkey, Some(format)).map_err(|_| Error::InvalidPubkey)?;
         // like the C library, accept only the canonical (low) S
-        Ok(!sig.s.is_high() && secp256k1::verify(&msg, &sig, &pubkey))
+        Ok(!is_high(&sig) && secp256k1::verify(&msg, &sig, &pubkey))
     }
 
     fn derive_pubkey(&self, secret_key: &[u8]) -> Result<Pubkey> {
@@ -68,7 +79,7 @@ impl ECC for RustECC {
     fn normalize_sig(&self, sig_ser: &[u8]) -> Result<Vec<u8>> {
         let sig = Signature::parse_der_lax(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
         let mut sig = check_range(sig)?;
-        sig.normalize_s();
+        normalize(&mut sig);
         Ok(sig.serialize_der().as_ref().to_vec())
     }
 }
-- 
2.43.0


From 36f4df3d337df5bfb45975ad3b7074fc420a1dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 18/28] fix: script macro panicked when the formatter left no
 statement separators

---
 bitcoin-cash-script-macro/src/gen_source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/gen_source.rs b/bitcoin-cash-script-macro/src/gen_source.rs
index b8c6679..5fe4ed9 100644
--- a/bitcoin-cash-script-macro/src/gen_source.rs
+++ b/bitcoin-cash-script-macro/src/gen_source.rs
@@ -28,7 +28,7 @@ pub fn format_stmts<'a>(
             .skip(1)
             .map(dedent)
             .collect::<Vec<_>>();
-        lines.remove(lines.len() - 1);
+        lines.pop();
         stmt_lines.push(lines);
     }
     Ok(stmt_lines)
-- 
2.43.0


From de34eca959811b6be0f020c360320307f7022496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 19/28] fix: script macro output depended on the hash order of
 the variants

---
 bitcoin-cash-script-macro/src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/state.rs b/bitcoin-cash-script-macro/src/state.rs
index e86167e..2702da5 100644
--- a/bitcoin-cash-script-macro/src/state.rs
+++ b/bitcoin-cash-script-macro/src/state.rs
@@ -2,7 +2,7 @@ use crate::ir;
 use bitcoin_cash_base::Integer;
 use proc_macro2::TokenStream;
 use quote::quote;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Clone)]
 pub struct StackItem {
@@ -21,7 +21,7 @@ pub struct State {
 
 #[derive(Clone)]
 pub struct VariantStates {
-    pub states: HashMap<syn::Ident, State>,
+    pub states: BTreeMap<syn::Ident, State>,
     pub predicate_atoms: Vec<ir::VariantPredicateAtom>,
 }
 
-- 
2.43.0


From 8dfaa13b597262423fec0d53f9a51398d78ae483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 20/28] fix: script macro panicked on a crate name that is no
 identifier

---
 bitcoin-cash-script-macro/src/parse.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index 60a8880..b9c3ed3 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -1,6 +1,8 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, ToTokens};
 use std::collections::HashMap;
+use syn::ext::IdentExt;
+use syn::parse::Parser;
 use syn::spanned::Spanned;
 
 use crate::ir;
@@ -92,11 +94,13 @@ fn parse_attrs(
         if let syn::NestedMeta::Meta(syn::Meta::NameValue(variant)) = attr {
             let name = single_path(&variant.path).map_err(|_| "Variant cannot have a module")?;
             if &name.to_string() == "crate" {
-                crate_name = Some(syn::Ident::new(
-                    &parse_string_lit(&variant.lit)
-                        .ok_or_else(|| "Invalid crate name, must be string.".to_string())?,
-                    name.span(),
-                ));
+                let mut crate_ident = parse_string_lit(&variant.lit)
+                    .and_then(|crate_name| syn::Ident::parse_any.parse_str(&crate_name).ok())
+                    .ok_or_else(|| {
+                        "Invalid crate name, must be string with an identifier.".to_string()
+                    })?;
+                crate_ident.set_span(name.span());
+                crate_name = Some(crate_ident);
             } else if &name.to_string() == "debug" {
                 debug = Some(parse_bool_lit(&variant.lit)
                     .ok_or_else(|| "Invalid debug, must be bool.".to_string())?);
-- 
2.43.0


From c718a09bda4f91e60cb9ae711be049019702222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 21/28] fix: script macro panicked on predicates starting with
 a multi-byte character

---
 bitcoin-cash-script-macro/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index b9c3ed3..12d8f4a 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -205,7 +205,7 @@ fn parse_predicate(predicate_lit: &syn::Lit) -> Result<ir::VariantPredicate, Str
                             if predicate_atom.is_empty() {
                                 return Err("Empty predicate name".to_string());
                             }
-                            let is_negated = &predicate_atom[..1] == "!";
+                            let is_negated = predicate_atom.starts_with('!');
                             if is_negated {
                                 predicate_atom = &predicate_atom[1..];
                             }
-- 
2.43.0


From bf5a67b92611a580fb761c22edd913e2937b7aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 22/28] fix: script macro panicked on an input whose variant is
 the input struct

---
 bitcoin-cash-script-macro/src/generate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 3891030..0959125 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -109,7 +109,9 @@ impl GenerateScript {
                             Error::new(span, format!("Undefined variant `{}`.", variant))
                         })?;
                     stack.stack.push(stack_item.clone());
-                    let fields = enum_variant_fields.get_mut(&variant).unwrap();
+                    let fields = enum_variant_fields.get_mut(&variant).ok_or_else(|| {
+                        Error::new(span, format!("Undefined variant `{}`.", variant))
+                    })?;
                     fields.push((
                         ident.clone(),
                         ty.clone(),
-- 
2.43.0


From 4db044c7f385b80fc6f20add207df189074560aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 23/28] fix: script macro panicked on const generics

---
 bitcoin-cash-script-macro/src/generate.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 0959125..907f7d7 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -6,7 +6,6 @@ use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
 use std::collections::HashMap;
 use std::convert::TryInto;
-use std::iter::FromIterator;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
 
@@ -147,12 +146,11 @@ impl GenerateScript {
         let hidden_func_name = &sig.ident;
         let input_struct = script.input_struct;
         let generics = sig.generics.clone();
-        let _generics_idents: Punctuated<_, syn::token::Comma> =
-            Punctuated::from_iter(generics.params.iter().map(|param| match param {
-                syn::GenericParam::Type(ty) => ty.ident.to_token_stream(),
-                syn::GenericParam::Lifetime(lt) => lt.lifetime.to_token_stream(),
-                _ => panic!("Generic const not supported"),
-            }));
+        for param in generics.params.iter() {
+            if let syn::GenericParam::Const(_) = param {
+                return Err(Error::new(param.span(), "Generic const not supported"));
+            }
+        }
         let script_ident = &self.script_ident;
 
         let (param_type, self_ref_tokens) = match &*script.param_type {
-- 
2.43.0


From 2063be5460b286f3925618c289c829975fba87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 24/28] fix: script macro panicked on opcodes whose stack
 behavior it does not know

---
 bitcoin-cash-script-macro/src/generate.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 907f7d7..85927c0 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -427,9 +427,23 @@ impl GenerateScript {
         opcode: ir::OpcodeStmt,
         crate_ident: &TokenStream,
     ) -> Result<TokenStream, Error> {
+        use Opcode::*;
         let src = self.next_formatted_stmts();
         let expr_span = opcode.expr_span;
         let outputs_span = opcode.outputs_span;
+        match opcode_type {
+            OP_IFDUP | OP_CHECKMULTISIG | OP_CHECKMULTISIGVERIFY => {
+                return Err(error_opcode(
+                    "Stack behavior depends on runtime values and is not supported.",
+                    opcode_type,
+                    expr_span,
+                ));
+            }
+            opcode_type if opcode_type.is_disabled() => {
+                return Err(error_opcode("Opcode is disabled.", opcode_type, expr_span));
+            }
+            _ => {}
+        }
         let behavior = opcode_type.behavior();
         let mut input_items = Vec::new();
         for _ in 0..behavior.input_types.len() {
-- 
2.43.0


From c1a29214fc90948ee99f363c408e25577002037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 25/28] fix: script macro panicked on OP_DEPTH without an
 output name

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 9047872..6823984 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -2920,7 +2920,7 @@ impl Opcode {
                 &[2, 3, 0, 1],
                 &[MovedIndirectly, MovedIndirectly, Moved, Moved],
             ),
-            OP_DEPTH => o(&[], &[Integer], &[0], &[Added]),
+            OP_DEPTH => u(&[], &[Integer], &[Added]),
             OP_DROP => o(&[T], &[], &[], &[]),
             OP_DUP => o(&[T], &[T, T], &[0, 0], &[Observed, Added]),
             OP_NIP => o(&[T, T], &[T], &[1], &[MovedIndirectly]),
-- 
2.43.0


From d78c5dc3027ba58098667eda635ee3cb1a12277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 26/28] fix: script macro's compile error named a random
 temporary path

---
 bitcoin-cash-script-macro/src/gen_source.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/gen_source.rs b/bitcoin-cash-script-macro/src/gen_source.rs
index 5fe4ed9..bd6feec 100644
--- a/bitcoin-cash-script-macro/src/gen_source.rs
+++ b/bitcoin-cash-script-macro/src/gen_source.rs
@@ -41,7 +41,7 @@ fn format_token_stream(
     let rustfmt = which_rustfmt().ok_or_else(|| "No rustfmt could be found.".to_string())?;
     let mut builder = tempfile::Builder::new();
     builder.prefix("cargo-expand");
-    let outdir = builder.tempdir().map_err(fmt_err)?;
+    let outdir = builder.tempdir().map_err(tempdir_err)?;
     let outfile_path = outdir.path().join("expanded");
 
     let unformatted = token_stream.to_string();
@@ -68,6 +68,12 @@ fn fmt_err(err: impl std::fmt::Display) -> String {
     err.to_string()
 }
 
+/// The error without the path, whose random name would differ each time the script is compiled.
+fn tempdir_err(err: std::io::Error) -> String {
+    let cause = std::io::Error::from(err.kind());
+    format!("Could not create a temporary directory: {}", cause)
+}
+
 fn which_rustfmt() -> Option<PathBuf> {
     match env::var_os("RUSTFMT") {
         Some(which) => {
-- 
2.43.0


From e7eec63dd01f41a938a951a4058f8729962a7cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:07 +0000
Subject: [PATCH 27/28] fix: script_destination took scripts with non-minimal
 pushes for standard ones

---
 bitcoin-cash/src/destination.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash/src/destination.rs b/bitcoin-cash/src/destination.rs
index 3e4096c..c083e23 100644
--- a/bitcoin-cash/src/destination.rs
+++ b/bitcoin-cash/src/destination.rs
@@ -19,10 +19,17 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
     const OP_RETURN: PatternOp = PatternOp::Code(Opcode::OP_RETURN);
     let ops = script.ops_arc();
     let pattern_ops: Vec<PatternOp> = script.ops_arc().iter().map(|op| (&op.op).into()).collect::<Vec<_>>();
+    // the standard scripts push minimally; with other pushes it's a different script
+    let is_minimal = ops.iter().all(|op| match op.op {
+        Op::PushByteArray { is_minimal, .. } => is_minimal,
+        _ => true,
+    });
 
     use PatternOp::Array;
     match pattern_ops.as_slice() {
-        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] if hash.len() == 20 => {
+        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG]
+            if hash.len() == 20 && is_minimal =>
+        {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -31,7 +38,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
                 ),
             )
         }
-        [OP_HASH160, Array(hash), OP_EQUAL] if hash.len() == 20 => {
+        [OP_HASH160, Array(hash), OP_EQUAL] if hash.len() == 20 && is_minimal => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -40,7 +47,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
                 )
             )
         }
-        [Array(pk), OP_CHECKSIG] => Destination::P2PK(pk.to_vec()),
+        [Array(pk), OP_CHECKSIG] if is_minimal => Destination::P2PK(pk.to_vec()),
         [OP_RETURN, ..] => {
             Destination::Nulldata(ops.iter().skip(1).map(|op| op.op.clone()).collect())
         }
-- 
2.43.0


From 3af840cc8d3481b428afbd7a44e159109ddaf539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:54 +0000
Subject: [PATCH 28/28] fix: sign_input on a resumed input dropped the
 signatures and marked the input signed

A builder made from a transaction has no signatories, so its inputs'
stored (empty) script became their final one. Refuse instead.
---
 bitcoin-cash/src/tx_builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash/src/tx_builder.rs b/bitcoin-cash/src/tx_builder.rs
index 13b89d2..f841a8f 100644
--- a/bitcoin-cash/src/tx_builder.rs
+++ b/bitcoin-cash/src/tx_builder.rs
@@ -511,6 +511,12 @@ impl<'b> UnsignedTx<'b> {
             return Err(Error::InputAlreadySigned { input_idx });
         }
         let builder_input = &self.builder.inputs[input_idx];
+        if builder_input.signed_input.is_some() {
+            return Err(Error::Msg(format!(
+                "Input {} has no signatory, sign it using sign_input_signatory",
+                input_idx
+            )));
+        }
         let preimage = &self.tx_preimages[input_idx];
         *input = Some(TxInput {
             prev_out: builder_input.input.prev_out.clone(),
-- 
2.43.0

