From 55ebe220042424e9f78066253277b59bdd905cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 01/20] fix: script integers longer than four bytes no longer
 decode to a wrapped value

---
 bitcoin-cash-base/src/encoding_utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitcoin-cash-base/src/encoding_utils.rs b/bitcoin-cash-base/src/encoding_utils.rs
index db3cc59..dcf6837 100644
--- a/bitcoin-cash-base/src/encoding_utils.rs
+++ b/bitcoin-cash-base/src/encoding_utils.rs
@@ -95,6 +95,7 @@ pub fn encode_bool(b: bool) -> Vec<u8> {
 
 fn try_shl(a: InnerInteger, b: u32, vec: &[u8]) -> Result<InnerInteger, String> {
     a.checked_shl(b)
+        .filter(|shifted| shifted >> b == a)
         .ok_or_else(|| format!("Overflow for {}", hex::encode(vec)))
 }
 
-- 
2.43.0


From cd036a006c9cd3f39996cb617e85991e64b51043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 02/20] fix: decoding a vector no longer allocates what its
 length prefix claims

---
 bitcoin-cash/src/bitcoin_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/bitcoin_code.rs b/bitcoin-cash/src/bitcoin_code.rs
index 0b7ba91..80e6eb3 100644
--- a/bitcoin-cash/src/bitcoin_code.rs
+++ b/bitcoin-cash/src/bitcoin_code.rs
@@ -64,7 +64,7 @@ impl<T: BitcoinCode> BitcoinCode for Vec<T> {
 
     fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
         let (len, mut byte_array) = read_size(data)?;
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::with_capacity(len.min(byte_array.len()));
         for _ in 0..len {
             let (item, rest) = T::deser_rest(byte_array)?;
             vec.push(item);
-- 
2.43.0


From 6b7c473eae0f2dcb9bd9c6b138fb3226d385d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 03/20] fix: decoding a push no longer allocates what its
 length prefix claims

---
 bitcoin-cash/src/script.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 7cbc33d..08361d0 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -214,6 +214,9 @@ pub fn deserialize_ops(bytes: &[u8]) -> error::Result<Vec<Op>> {
                 continue;
             }
         };
+        if push_len > bytes.len().saturating_sub(i) {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let mut vec = vec![0; push_len];
         cur.read_exact(&mut vec)?;
         i += push_len;
-- 
2.43.0


From 08b6f0dc8408256468f2f4a24c3f69d1e1197444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 04/20] fix: an address pattern whose push is not 20 bytes is
 not an address

---
 bitcoin-cash/src/destination.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/destination.rs b/bitcoin-cash/src/destination.rs
index 627595a..3e4096c 100644
--- a/bitcoin-cash/src/destination.rs
+++ b/bitcoin-cash/src/destination.rs
@@ -22,7 +22,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
 
     use PatternOp::Array;
     match pattern_ops.as_slice() {
-        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] => {
+        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -31,7 +31,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
                 ),
             )
         }
-        [OP_HASH160, Array(hash), OP_EQUAL] => {
+        [OP_HASH160, Array(hash), OP_EQUAL] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
-- 
2.43.0


From ddec596d5180db0ce3ce7b9d196292a29c741b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 05/20] fix: fixed byte array hex of the wrong length is an
 error, not a panic

---
 bitcoin-cash-base/src/byte_array.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 1ddd85e..8ea4de9 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -723,9 +723,7 @@ where
             if !H::is_big_endian() {
                 data.reverse();
             }
-            let mut array = T::default();
-            array.as_mut().copy_from_slice(&data);
-            Ok(FixedByteArray::new_unnamed(array))
+            FixedByteArray::from_slice_unnamed(&data).map_err(serde::de::Error::custom)
         } else {
             Ok(FixedByteArray::new_unnamed(T::deserialize(deserializer)?))
         }
-- 
2.43.0


From f63694858d9ce49308ee17d1a89c29e43837b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 06/20] fix: Tx decodes from its wire form, with its contents
 and hash

---
 bitcoin-cash/src/tx.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash/src/tx.rs b/bitcoin-cash/src/tx.rs
index a945abd..3f2d998 100644
--- a/bitcoin-cash/src/tx.rs
+++ b/bitcoin-cash/src/tx.rs
@@ -54,19 +54,37 @@ pub struct UnhashedTx {
     pub lock_time: u32,
 }
 
-#[bitcoin_code(crate = "crate")]
-#[derive(BitcoinCode, Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
 #[serde(rename_all = "camelCase")]
 pub struct Tx {
-    #[bitcoin_code(skip)]
     unhashed_tx: UnhashedTx,
 
-    #[bitcoin_code(skip)]
     hash: Sha256d,
 
     raw: ByteArray,
 }
 
+impl BitcoinCode for Tx {
+    fn ser(&self) -> ByteArray {
+        self.raw.clone()
+    }
+
+    fn deser_rest(data: ByteArray) -> crate::error::Result<(Self, ByteArray)> {
+        let (unhashed_tx, rest) = UnhashedTx::deser_rest(data.clone())?;
+        let raw_len = data.len() - rest.len();
+        let (raw, rest) = data.split(raw_len)?;
+        let hash = Sha256d::digest(raw.clone());
+        Ok((
+            Tx {
+                unhashed_tx,
+                hash,
+                raw,
+            },
+            rest,
+        ))
+    }
+}
+
 impl TxInput {
     pub fn new(prev_out: TxOutpoint, script: Script, sequence: u32) -> Self {
         TxInput {
-- 
2.43.0


From c96ce274638e5e8b8b1208ec415d036ee35ea2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 07/20] fix: cashaddr payloads of the wrong length or padding
 are rejected, not a panic

---
 bitcoin-cash/src/address.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index 03a41ef..abd1741 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -42,6 +42,8 @@ pub enum CashAddrError {
     InvalidBase32Letter(usize, u8),
     #[error("Invalid address type {0}")]
     InvalidAddressType(u8),
+    #[error("Invalid payload")]
+    InvalidPayload,
 }
 
 impl Prefix {
@@ -382,18 +384,23 @@ fn _from_cash_addr<'a>(
     if !_verify_checksum(&prefix, decoded.iter().cloned()) {
         return Err(CashAddrError::InvalidChecksum);
     }
-    let converted = _convert_bits(decoded.iter().cloned(), 5, 8, true).unwrap();
+    let payload = &decoded[..decoded.len().saturating_sub(8)];
+    let converted = _convert_bits(payload.iter().cloned(), 5, 8, false)
+        .ok_or(CashAddrError::InvalidPayload)?;
+    let (&version, hash) = converted
+        .split_first()
+        .ok_or(CashAddrError::InvalidPayload)?;
+    let addr_type = match version {
+        0 => AddressType::P2PKH,
+        8 => AddressType::P2SH,
+        x => return Err(CashAddrError::InvalidAddressType(x)),
+    };
+    if hash.len() != 20 {
+        return Err(CashAddrError::InvalidPayload);
+    }
     let mut addr = [0; 20];
-    addr.copy_from_slice(&converted[1..converted.len() - 6]);
-    Ok((
-        addr,
-        match converted[0] {
-            0 => AddressType::P2PKH,
-            8 => AddressType::P2SH,
-            x => return Err(CashAddrError::InvalidAddressType(x)),
-        },
-        prefix,
-    ))
+    addr.copy_from_slice(hash);
+    Ok((addr, addr_type, prefix))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 42ad3a0b8343088b8da6c264b6220a02c151ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 08/20] fix: byte array indices in transaction JSON are
 validated

---
 bitcoin-cash/src/serialize_json.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/serialize_json.rs b/bitcoin-cash/src/serialize_json.rs
index 3a6a2ab..f940524 100644
--- a/bitcoin-cash/src/serialize_json.rs
+++ b/bitcoin-cash/src/serialize_json.rs
@@ -95,6 +95,9 @@ pub enum JsonError {
     #[error("Invalid data_idx: {idx}")]
     InvalidStringIdx { idx: usize },
 
+    #[error("Invalid byte_array_idx: {idx}")]
+    InvalidByteArrayIdx { idx: usize },
+
     #[error("Invalid hash")]
     InvalidHash,
 
@@ -347,13 +350,24 @@ impl JsonData {
     }
 
     fn get_byte_array(&mut self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
-        let preimage = self.byte_arrays[byte_array_idx]
+        let preimage = self
+            .byte_arrays
+            .get(byte_array_idx)
+            .ok_or(JsonError::InvalidByteArrayIdx {
+                idx: byte_array_idx,
+            })?
             .preimage_indices
             .clone()
             .map(|preimage_indices| {
                 preimage_indices
                     .iter()
-                    .map(|&idx| self.get_byte_array(idx))
+                    .map(|&idx| {
+                        // preimages always precede the arrays made from them
+                        if idx >= byte_array_idx {
+                            return Err(JsonError::InvalidByteArrayIdx { idx });
+                        }
+                        self.get_byte_array(idx)
+                    })
                     .collect::<Result<Vec<_>, _>>()
             })
             .map_or(Ok(None), |preimage| preimage.map(Some))?;
-- 
2.43.0


From d3dbce63f69f05d99304b8769eec846c12ea230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 09/20] fix: an empty byte array decodes to no values

---
 bitcoin-cash/src/serializer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash/src/serializer.rs b/bitcoin-cash/src/serializer.rs
index db988f0..a496370 100644
--- a/bitcoin-cash/src/serializer.rs
+++ b/bitcoin-cash/src/serializer.rs
@@ -13,12 +13,10 @@ where
 
 pub fn decode_bitcoin_code_all<T: BitcoinCode>(mut byte_array: ByteArray) -> Result<Vec<T>> {
     let mut items = Vec::new();
-    loop {
+    while !byte_array.is_empty() {
         let (item, rest) = T::deser_rest(byte_array)?;
         byte_array = rest;
         items.push(item);
-        if byte_array.is_empty() {
-            return Ok(items);
-        }
     }
+    Ok(items)
 }
-- 
2.43.0


From 6aac97dd54d7884942f0fb60df8a012e7bbc998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 10/20] fix: encoding an integer into very many bytes does not
 overflow

---
 bitcoin-cash-base/src/byte_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 8ea4de9..278a92a 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -429,7 +429,7 @@ impl ByteArray {
         if inner_n_bytes <= 0 {
             return Err(ByteArrayError::FromIntegerError { int, n_bytes });
         }
-        let max_bits = (inner_n_bytes * 8 - 1).min(31) as u128;
+        let max_bits = (inner_n_bytes.saturating_mul(8) - 1).min(31) as u128;
         let max_num: u128 = 1 << max_bits;
         let max_num = (max_num - 1) as InnerInteger;
         let min_num = -max_num;
-- 
2.43.0


From be9a3757bf61c024754bfd6443fa2d0a8ae2cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 11/20] fix: the script code after a code separator does not
 contain the separator

---
 bitcoin-cash/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 08361d0..ba49f20 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -46,7 +46,7 @@ impl Script {
                 match op.op {
                     Op::Code(Opcode::OP_CODESEPARATOR) => {
                         if n_codesep == n_codeseps_found {
-                            codesep_idx = Some(idx);
+                            codesep_idx = Some(idx + 1);
                             break;
                         }
                         n_codeseps_found += 1;
-- 
2.43.0


From ba7220f7df1b8d851ead2c3da06dd6a5df9121cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 12/20] fix: signing an input does not write to standard output

---
 bitcoin-cash/src/tx_builder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitcoin-cash/src/tx_builder.rs b/bitcoin-cash/src/tx_builder.rs
index 5f4c6b6..f3dbaca 100644
--- a/bitcoin-cash/src/tx_builder.rs
+++ b/bitcoin-cash/src/tx_builder.rs
@@ -492,7 +492,6 @@ impl<'b> UnsignedTx<'b> {
         input_ref: InputReference<S>,
         sigs: S::Signatures,
     ) -> Result<()> {
-        println!("Signing input {}", input_ref.input_idx());
         self.sign_input_dyn(input_ref.input_idx, Box::new(sigs))
     }
 
-- 
2.43.0


From 55a8b02ea17118e4256f6d25fd8e64859c664ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 13/20] fix: OP_DEPTH takes none of its output from an input

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 9047872..6823984 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -2920,7 +2920,7 @@ impl Opcode {
                 &[2, 3, 0, 1],
                 &[MovedIndirectly, MovedIndirectly, Moved, Moved],
             ),
-            OP_DEPTH => o(&[], &[Integer], &[0], &[Added]),
+            OP_DEPTH => u(&[], &[Integer], &[Added]),
             OP_DROP => o(&[T], &[], &[], &[]),
             OP_DUP => o(&[T], &[T, T], &[0, 0], &[Observed, Added]),
             OP_NIP => o(&[T, T], &[T], &[1], &[MovedIndirectly]),
-- 
2.43.0


From 7fd7570af50eb9712e655625483ab33e3d9d0cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 14/20] fix: OP_CHECKSIGVERIFY leaves nothing, so has no delta

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 6823984..9200c68 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -3012,7 +3012,7 @@ impl Opcode {
             OP_HASH160 => u(&[ByteArray(None)], &[ByteArray(Some(20))], &[Changed]),
             OP_HASH256 => u(&[ByteArray(None)], &[ByteArray(Some(32))], &[Changed]),
             OP_CHECKSIG => u(&[ByteArray(None), ByteArray(None)], &[Boolean], &[Changed]),
-            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[Changed]),
+            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[]),
 
             OP_CHECKDATASIG => u(
                 &[ByteArray(None), ByteArray(None), ByteArray(None)],
-- 
2.43.0


From f12c0a62eb7d04ce2acbdfb5b0a4f5febd3c0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 15/20] fix: OP_NOTIF takes its condition off the stack

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 9200c68..aa2c743 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -3028,7 +3028,7 @@ impl Opcode {
             OP_0 | OP_1NEGATE | OP_1 | OP_2 | OP_3 | OP_4 | OP_5 | OP_6 | OP_7 | OP_8 | OP_9
             | OP_10 | OP_11 | OP_12 | OP_13 | OP_14 | OP_15 | OP_16 => u(&[], &[Integer], &[Added]),
 
-            OP_IF => u(&[T], &[], &[]),
+            OP_IF | OP_NOTIF => u(&[T], &[], &[]),
             OP_ELSE => u(&[], &[], &[]),
             OP_ENDIF => u(&[], &[], &[]),
 
-- 
2.43.0


From 9ba49019a0d9f1e26fdef5115c43ce14052869ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:57 +0000
Subject: [PATCH 16/20] fix: the size OP_SIZE pushes does not take the array's
 name

---
 bitcoin-cash-script-macro/src/generate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 3891030..a5c745c 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -492,7 +492,7 @@ impl GenerateScript {
                 let new_ident = self.make_ident(ident.span());
                 let name = ident.to_string();
                 if &name == "__" {
-                    if opcode_type.retains_input() {
+                    if opcode_type.retains_input() && idx == 0 {
                         let new_idx = 0;
                         pushed_stack_items.push(StackItem {
                             ident: new_ident,
@@ -535,9 +535,9 @@ impl GenerateScript {
                     }
                 }
                 None => {
-                    for _ in 0..behavior.output_types.len() {
+                    for idx in 0..behavior.output_types.len() {
                         let ident = self.make_ident(outputs_span);
-                        if opcode_type.retains_input() {
+                        if opcode_type.retains_input() && idx == 0 {
                             let new_idx = 0;
                             pushed_stack_items.push(StackItem {
                                 ident,
-- 
2.43.0


From c6b8de5103ad527b4fc96f3696e59114176dc923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 17/20] fix: statements of nested conditionals stay in the
 branch they are written in

---
 bitcoin-cash-script-macro/src/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index 60a8880..d836362 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -449,7 +449,6 @@ fn parse_opcode_inputs(
 fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::Error> {
     let mut new_stmts = Vec::new();
     let mut if_stack = Vec::new();
-    let mut is_then = true;
     struct If {
         if_opcode: ir::OpcodeStmt,
         if_token_stream: TokenStream,
@@ -473,11 +472,9 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                         then_stmts: vec![],
                         else_stmts: vec![],
                     });
-                    is_then = true;
                     continue;
                 }
                 "OP_ELSE" => {
-                    is_then = false;
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
@@ -514,7 +511,7 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
             new_stmts.push(stmt);
         } else {
             let top_if = if_stack.last_mut().unwrap();
-            if is_then {
+            if top_if.else_opcode.is_none() {
                 top_if.then_stmts.push(stmt);
             } else {
                 top_if.else_stmts.push(stmt);
-- 
2.43.0


From a47a47d9fe5e8e9c442a673e42a3c090f4e3f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:15 +0000
Subject: [PATCH 18/20] fix: a second OP_ELSE of an OP_IF is refused, not
 dropped

---
 bitcoin-cash-script-macro/src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index d836362..819d3a4 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -478,6 +478,12 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
+                    if top_if.else_opcode.is_some() {
+                        return Err(syn::Error::new(
+                            opcode.expr_span,
+                            "OP_IF already has an OP_ELSE.",
+                        ));
+                    }
                     top_if.else_opcode = Some(opcode);
                     top_if.else_token_stream = Some(token_stream);
                     continue;
-- 
2.43.0


From 220183daafb44505f62ca162371d65d93d69d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 19/20] fix: an item named while moved between the stacks or
 picked has a name

---
 bitcoin-cash-script-macro/src/generate.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index a5c745c..20e1061 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -850,6 +850,7 @@ impl GenerateScript {
                 ));
             }
             item.name = output_names[0].to_string();
+            item.has_generated_name = false;
         }
         Ok(())
     }
-- 
2.43.0


From 473b32958a3571ca8d8d3717d6e719a8c7c1c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:47 +0000
Subject: [PATCH 20/20] fix: derive(BitcoinCode) skips only fields marked
 bitcoin_code(skip), not ones another macro is told to skip

---
 bitcoin-cash-code/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 93a412a..8254e06 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -108,6 +108,8 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 syn::Meta::NameValue(_) => {
                     return Err(syn::Error::new(attr.span(), "Invalid attribute"))
                 }
+                // attributes of other macros say nothing about the wire format
+                syn::Meta::List(list) if list.path.to_token_stream().to_string() != "bitcoin_code" => {}
                 syn::Meta::List(list) => {
                     let params = list
                         .nested
-- 
2.43.0

