From 4b34ba1132c5417b652cabda9f631e3eb18800cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 01/27] fix: read maps and empty arrays back from their
 serialised form

---
 crates/sourisdb/src/values.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 62d9588..fc82e45 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1147,7 +1147,7 @@ impl Value {
             FoundValue(Value),
             JsonNeeded,
             TimezoneNeeded,
-            Map(HashMap<String, Value>, usize, u8),
+            Map(HashMap<String, Value>, usize),
             FoundKey(String),
             FoundKeyValue(String, Value),
             Array(Vec<Value>, usize),
@@ -1156,7 +1156,7 @@ impl Value {
         enum ParseResult {
             Value(Value),
             NewArray(usize),
-            NewMap(usize, u8),
+            NewMap(usize),
             Json,
             Timezone,
         }
@@ -1247,7 +1247,7 @@ impl Value {
                 }
                 ValueTy::Map => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
-                    return Ok(ParseResult::NewMap(len, byte));
+                    return Ok(ParseResult::NewMap(len));
                 }
                 ValueTy::Array => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
@@ -1286,7 +1286,7 @@ impl Value {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len), len, byte),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
@@ -1305,7 +1305,7 @@ impl Value {
                         }
                         Some(next_stack_frame) => {
                             match next_stack_frame {
-                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
+                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
                                 DeserialisationState::FoundKey(key) => {
                                     stack.push(DeserialisationState::FoundKeyValue(key, val));
                                 }
@@ -1341,22 +1341,39 @@ impl Value {
                         }
                     }
                 }
+                DeserialisationState::Array(so_far, 0) => {
+                    stack.push(DeserialisationState::FoundValue(Value::Array(so_far)));
+                }
                 DeserialisationState::Array(so_far, left) => {
                     stack.push(DeserialisationState::Array(so_far, left));
                     stack.push(DeserialisationState::ValueNeeded);
                 }
-                DeserialisationState::Map(so_far, left, byte) => {
+                DeserialisationState::Map(so_far, 0) => {
+                    stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
+                }
+                DeserialisationState::Map(so_far, left) => {
+                    //each key is a full `Value::String` with a type byte of its own
+                    let byte = bytes.next().ok_or(ValueSerError::NotEnoughBytes).copied()?;
+                    let found = ValueTy::try_from((byte & 0b1111_0000) >> 4)?;
+                    if found != ValueTy::String {
+                        return Err(ValueSerError::UnexpectedValueType {
+                            found,
+                            expected: ValueTy::String,
+                        });
+                    }
+
                     let key = parse_string(byte, bytes, huffman)?;
-                    stack.push(DeserialisationState::Map(so_far, left, byte));
+                    stack.push(DeserialisationState::Map(so_far, left));
                     stack.push(DeserialisationState::FoundKey(key));
+                    stack.push(DeserialisationState::ValueNeeded);
                 },
                 DeserialisationState::FoundKeyValue(key, val) => {
-                    if let Some(DeserialisationState::Map(mut so_far, left, byte)) = stack.pop() {
+                    if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
-                            stack.push(DeserialisationState::Map(so_far, left - 1, byte));
+                            stack.push(DeserialisationState::Map(so_far, left - 1));
                         }
                     } else {
                         return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::FoundKeyValueWithoutMap));
-- 
2.43.0


From 9b8373da172d7ad3d288dd19f42423edcd5e3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 02/27] fix: give the only symbol of a one-symbol huffman tree
 a bit of its own

---
 crates/sourisdb/src/utilities/huffman.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 9d06040..c3b79ac 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -361,7 +361,12 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
     ) {
         match node {
             Node::Leaf(ch) => {
-                to_bits.insert(ch.clone(), bits_so_far);
+                let mut bits = bits_so_far;
+                if bits.is_empty() {
+                    //a tree with only one symbol still needs a bit per symbol to know how many there were
+                    bits.push(true);
+                }
+                to_bits.insert(ch.clone(), bits);
             }
             Node::Branch { left, right } => {
                 let mut left_bits = bits_so_far.clone();
@@ -421,7 +426,11 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
         for next_direction in bits {
             let new_node;
             match current_node {
-                Node::Leaf(_) => unreachable!(),
+                Node::Leaf(t) => {
+                    //only the root of a tree with one symbol - every bit is that symbol
+                    new_node = &self.root;
+                    result.push(t.clone());
+                }
                 Node::Branch { left, right } => {
                     let found = if next_direction { left } else { right };
                     if let Some(t) = found.leaf_contents().cloned() {
-- 
2.43.0


From fc76c571435b9b48f98fecfeb5d6615c6bf7e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 03/27] fix: do not underflow on a zero character in a
 serialised huffman tree

---
 crates/sourisdb/src/utilities/huffman.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index c3b79ac..2aeeb23 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -198,8 +198,11 @@ impl Node<char> {
         } else {
             cursor.move_backwards(1);
             let ch: u32 = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
-            let Ok(ch) = char::try_from(ch - 1) else {
-                return Err(HuffmanSerError::InvalidCharacter(ch - 1));
+            let Some(ch) = ch.checked_sub(1) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
+            };
+            let Ok(ch) = char::try_from(ch) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
             };
 
             Ok(Node::Leaf(ch))
-- 
2.43.0


From cc4f74fca80bb48517e1f67211083e278abb76cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 04/27] fix: read the right number of bytes for bit strings
 longer than an f32 can count

---
 crates/sourisdb/src/utilities/bits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index c1ae435..1b8e173 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -161,7 +161,7 @@ impl Bits {
     )]
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, IntegerSerError> {
         let valid_bits: usize = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
-        let to_be_read = (valid_bits as f32 / 8.0).ceil() as usize;
+        let to_be_read = valid_bits.div_ceil(8);
         let Some(backing) = bytes.read(to_be_read).map(<[u8]>::to_vec) else {
             return Err(IntegerSerError::NotEnoughBytes);
         };
-- 
2.43.0


From 8b8f75f5219cb28efd87a5b247aaa5e7ce634e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 05/27] fix: limit the depth of a serialised huffman tree
 instead of overflowing the stack

---
 crates/sourisdb/src/utilities/huffman.rs | 32 ++++++++++++++++++------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 2aeeb23..09bc4ac 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -88,6 +88,9 @@ pub struct Huffman<T: Hash + Eq + Clone> {
 }
 //I tested tree traversal both ways, and in the end it made encoding like 2000% slower (300 nano -> 7 milli), but encoding like 90% faster (1 milli -> 100 nano), so that's the cause for the split approach
 
+///The deepest a node tree can be when read back - a tree for [`u8`]s can have at most 256 leaves, and a tree for [`char`]s could only get this deep with far more characters than fit into memory.
+const MAX_TREE_DEPTH: usize = 256;
+
 ///A binary tree structure for use in creating the huffman encoding
 #[derive(Debug, Eq, PartialEq, Hash)]
 enum Node<T> {
@@ -151,15 +154,19 @@ impl Node<u8> {
         }
     }
 
-    pub fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+    pub fn deser(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
+
         let Some(start) = cursor.next().copied() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         match start {
             0 => {
-                let left = Box::new(Self::deser(cursor)?);
-                let right = Box::new(Self::deser(cursor)?);
+                let left = Box::new(Self::deser(cursor, depth + 1)?);
+                let right = Box::new(Self::deser(cursor, depth + 1)?);
                 Ok(Node::Branch { left, right })
             }
             1 => {
@@ -186,14 +193,18 @@ impl Node<char> {
         }
     }
 
-    fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+    fn deser(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
+
         let Some(ch) = cursor.next() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         if *ch == 0 {
-            let left = Box::new(Self::deser(cursor)?);
-            let right = Box::new(Self::deser(cursor)?);
+            let left = Box::new(Self::deser(cursor, depth + 1)?);
+            let right = Box::new(Self::deser(cursor, depth + 1)?);
             Ok(Node::Branch { left, right })
         } else {
             cursor.move_backwards(1);
@@ -227,6 +238,8 @@ pub enum HuffmanSerError {
     UnableToCode,
     ///In order to create a node tree, the provided list must not be empty
     UnableToCreateNodeTree,
+    ///The serialised node tree was nested deeper than any tree we could have written
+    TreeTooDeep,
 }
 
 impl From<IntegerSerError> for HuffmanSerError {
@@ -260,6 +273,9 @@ impl Display for HuffmanSerError {
             HuffmanSerError::UnableToCreateNodeTree => {
                 write!(f, "Unable to create node tree with empty input")
             }
+            HuffmanSerError::TreeTooDeep => {
+                write!(f, "Node tree nested too deeply")
+            }
         }
     }
 }
@@ -469,7 +485,7 @@ impl Huffman<u8> {
     /// - [`IntegerSerError`] if there is an error deserialising one of the [`Integer`]s.
     /// - [`HuffmanSerError::InvalidDiscriminant`] if we find an invalid discriminant in the serialised node tree.
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
-        let root = Node::<u8>::deser(bytes)?;
+        let root = Node::<u8>::deser(bytes, 0)?;
 
         let mut to_bits = HashMap::new();
         Self::add_node_to_table(&root, &mut to_bits, Bits::default());
@@ -634,7 +650,7 @@ impl Huffman<char> {
     /// - [`IntegerSerError`] if there is an error deserialising one of the [`Integer`]s.
     /// - [`HuffmanSerError::InvalidCharacter`] if we find an invalid character.
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
-        let root = Node::<char>::deser(bytes)?;
+        let root = Node::<char>::deser(bytes, 0)?;
 
         let mut to_bits = HashMap::new();
         Self::add_node_to_table(&root, &mut to_bits, Bits::default());
-- 
2.43.0


From 883a16e2677b5f5db95e37ab781ce9d6d00620fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 06/27] fix: do not reserve memory for container lengths that
 the input has not backed up

---
 crates/sourisdb/src/values.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index fc82e45..b85ae8f 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1285,8 +1285,8 @@ impl Value {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
+                        ParseResult::NewArray(len) => DeserialisationState::Array(vec![], len),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::new(), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
-- 
2.43.0


From 3d1c34523d021bec22092b468a3d0df078422277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 07/27] fix: check the length of LZ data against the compressed
 bytes and the result

---
 crates/sourisdb/src/types/binary/lz.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/lz.rs b/crates/sourisdb/src/types/binary/lz.rs
index c61b3a3..dca33f3 100644
--- a/crates/sourisdb/src/types/binary/lz.rs
+++ b/crates/sourisdb/src/types/binary/lz.rs
@@ -40,7 +40,16 @@ pub fn un_lz(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
         .read(compressed_len)
         .ok_or(BinarySerError::NotEnoughBytes)?;
 
-    Ok(decompress(compressed, input_len)?)
+    //each compressed byte can stand for at most 255 bytes, and we are about to reserve this many
+    if input_len > compressed.len().saturating_mul(255) {
+        return Err(BinarySerError::NotEnoughBytes);
+    }
+
+    let decompressed = decompress(compressed, input_len)?;
+    if decompressed.len() != input_len {
+        return Err(BinarySerError::NotEnoughBytes);
+    }
+    Ok(decompressed)
 }
 
 //leftover from when I tried to actually implement lz, but was very slow
-- 
2.43.0


From 747f54d89051eeb60b2cbbae353243c620f5a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 08/27] fix: reject run-length data that ends in a count
 without a byte

---
 crates/sourisdb/src/types/binary/rle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/sourisdb/src/types/binary/rle.rs b/crates/sourisdb/src/types/binary/rle.rs
index 5042d45..bf3713c 100644
--- a/crates/sourisdb/src/types/binary/rle.rs
+++ b/crates/sourisdb/src/types/binary/rle.rs
@@ -50,6 +50,10 @@ pub fn un_rle(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
     if len == 0 {
         return Ok(vec![]);
     }
+    if len % 2 != 0 {
+        //a count without a byte
+        return Err(BinarySerError::NotEnoughBytes);
+    }
 
     let mut output = vec![];
 
-- 
2.43.0


From d7619b298282b813f43e797ebec33edaf5e1d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 09/27] fix: return an error rather than panic when a huffman
 run cannot fit in memory

---
 crates/sourisdb/src/types/binary/huffman.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/huffman.rs b/crates/sourisdb/src/types/binary/huffman.rs
index bd6193d..c4a8867 100644
--- a/crates/sourisdb/src/types/binary/huffman.rs
+++ b/crates/sourisdb/src/types/binary/huffman.rs
@@ -44,7 +44,12 @@ pub fn un_huffman(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, HuffmanSerError> {
                 .next()
                 .copied()
                 .ok_or(HuffmanSerError::NotEnoughBytes)?;
-            vec![element; count]
+            let mut output = vec![];
+            output
+                .try_reserve_exact(count)
+                .map_err(|_| HuffmanSerError::UnableToCode)?;
+            output.resize(count, element);
+            output
         }
         _ => {
             let huffman = Huffman::<u8>::deser(cursor)?;
-- 
2.43.0


From 9105464eda74c255d8bb0949dc7e2731d9fe0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 10/27] fix: an unsigned zero uses no bytes, like every other
 zero

---
 crates/sourisdb/src/types/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index dee22ff..c4beab5 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -297,14 +297,14 @@ macro_rules! from_unsigned {
                 for (i, b) in n.to_le_bytes().into_iter().enumerate() {
                     content[i] = b;
                     if b != 0 {
-                        last_non_zero_byte = i;
+                        last_non_zero_byte = i + 1;
                     }
                 }
 
                 Self {
                     signed_state: SignedState::Unsigned,
                     content,
-                    number_of_bytes_used: last_non_zero_byte + 1
+                    number_of_bytes_used: last_non_zero_byte
                 }
             }
         }
-- 
2.43.0


From 9a9a2b26a55bad2f889c0a21b5ab55ba79cefe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 11/27] fix: refuse to convert integers that a signed type
 cannot represent instead of wrapping

---
 crates/sourisdb/src/types/integer.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index c4beab5..65a26b6 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -281,7 +281,12 @@ macro_rules! from_signed {
                     start
                 };
 
-                Ok(<$t>::from_le_bytes(out))
+                let out = <$t>::from_le_bytes(out);
+                if (out < 0) != (i.signed_state == SignedState::SignedNegative) {
+                    //the top bit was needed for the number itself
+                    return Err(IntegerSerError::TooBigToFit);
+                }
+                Ok(out)
             }
         }
         )+
@@ -762,6 +767,13 @@ impl Integer {
             content[i] = b;
         }
 
+        let top_bit_set = content[INTEGER_MAX_SIZE - 1] > 0b0111_1111;
+        if signed_state != SignedState::Unsigned
+            && top_bit_set != (signed_state == SignedState::SignedNegative)
+        {
+            return Err(IntegerSerError::SignError);
+        }
+
         Ok(Self {
             signed_state,
             content,
-- 
2.43.0


From 11ee925d126b4fe0ebaacd89ed89b786c84fbb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 12/27] fix: convert floats to integers exactly or not at all,
 with the same rules for both precisions

---
 crates/sourisdb/src/types/integer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 65a26b6..05c075d 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -417,15 +417,15 @@ impl TryFrom<f64> for Integer {
         if !value.is_finite() {
             return Err(FloatToIntegerConversionError::NotFinite);
         }
-        if value.fract() > f64::EPSILON {
+        let floored = value.round();
+        if (value - floored).abs() > f64::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 value.fract(),
             ));
         }
 
-        let floored = value.floor();
         if floored < 0.0 {
-            if floored > BiggestIntButSigned::MIN as f64 {
+            if floored >= BiggestIntButSigned::MIN as f64 {
                 Ok((floored as BiggestIntButSigned).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
@@ -449,21 +449,24 @@ impl TryFrom<f32> for Integer {
         clippy::cast_sign_loss
     )]
     fn try_from(value: f32) -> Result<Self, Self::Error> {
-        if value.fract() > f32::EPSILON {
+        if !value.is_finite() {
+            return Err(FloatToIntegerConversionError::NotFinite);
+        }
+        let floored = value.round();
+        if (value - floored).abs() > f32::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 f64::from(value.fract()),
             ));
         }
 
-        let floored = value.floor();
         if floored < 0.0 {
-            if floored > i128::MIN as f32 {
+            if floored >= i128::MIN as f32 {
                 Ok((floored as i128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored > u128::MAX as f32 {
+            if floored < u128::MAX as f32 {
                 Ok((floored as u128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
-- 
2.43.0


From cebe7dbd201b3b123ce42c58f55e05ac5a82a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 13/27] fix: ignore bits beyond the length of a serialised bit
 string

---
 crates/sourisdb/src/utilities/bits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index 1b8e173..d1b5cfa 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -118,7 +118,7 @@ impl Bits {
             return self.backing.clone();
         }
 
-        let to_be_anded = (0..=interior_index).fold(0, |acc, i| acc | (1 << i));
+        let to_be_anded = (0..interior_index).fold(0, |acc, i| acc | (1 << i));
 
         let mut bytes = self.backing.clone();
         bytes[self.backing.len() - 1] &= to_be_anded;
@@ -166,10 +166,12 @@ impl Bits {
             return Err(IntegerSerError::NotEnoughBytes);
         };
 
-        Ok(Self {
+        let mut out = Self {
             backing,
             valid_bits,
-        })
+        };
+        out.backing = out.get_proper_bytes(); //anything beyond the valid bits is not ours
+        Ok(out)
     }
 }
 
-- 
2.43.0


From 7cec195bea9041df962cec89cf1a93d0e4e10549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 14/27] fix: seek a cursor relative to the position that was
 asked for

---
 crates/sourisdb/src/utilities/cursor.rs | 40 +++++++++----------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/crates/sourisdb/src/utilities/cursor.rs b/crates/sourisdb/src/utilities/cursor.rs
index 34d8dd4..0673e2e 100644
--- a/crates/sourisdb/src/utilities/cursor.rs
+++ b/crates/sourisdb/src/utilities/cursor.rs
@@ -214,36 +214,24 @@ impl<'a, T> std::io::Seek for Cursor<'a, T> {
         clippy::cast_sign_loss
     )]
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Current(offset) => {
-                if offset > 0 {
-                    if !self.move_forwards(offset as usize) {
-                        return Err(std::io::Error::new(
-                            std::io::ErrorKind::NotFound,
-                            "Goes out of bounds".to_string(),
-                        ));
-                    }
-                }
-            }
+        let new_pos = match pos {
+            std::io::SeekFrom::Current(offset) => (self.pos as u64).checked_add_signed(offset),
             std::io::SeekFrom::End(offset) => {
-                if offset > 0 || !self.move_backwards((-offset) as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
+                (self.backing.len() as u64).checked_add_signed(offset)
             }
-            std::io::SeekFrom::Start(offset) => {
-                if !self.move_backwards(offset as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
+            std::io::SeekFrom::Start(offset) => Some(offset),
+        };
+
+        match new_pos {
+            Some(new_pos) if new_pos <= self.backing.len() as u64 => {
+                self.pos = new_pos as usize;
+                Ok(new_pos)
             }
+            _ => Err(std::io::Error::new(
+                std::io::ErrorKind::NotFound,
+                "Goes out of bounds".to_string(),
+            )),
         }
-
-        Ok(self.pos as u64)
     }
 }
 
-- 
2.43.0


From 7064aed4344a68401c95cc026cee0bf8a0a52fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 15/27] fix: hash equal values equally

---
 crates/sourisdb/src/types/imaginary.rs |  4 ++++
 crates/sourisdb/src/values.rs          | 11 +++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index c4c7e2e..963e922 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -45,6 +45,10 @@ impl Hash for Imaginary {
                 imaginary.hash(state);
             }
             Self::PolarForm { modulus, argument } => {
+                //-0.0 is equal to 0.0
+                let modulus = if *modulus == 0.0 { 0.0 } else { *modulus };
+                let argument = if *argument == 0.0 { 0.0 } else { *argument };
+
                 match modulus.classify() {
                     FpCategory::Nan => 0,
                     FpCategory::Infinite => 1,
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index b85ae8f..2c4377e 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -248,13 +248,14 @@ impl Hash for Value {
                 v.hash(state);
             }
             Value::JSON(j) => {
-                j.to_string().hash(state);
+                j.hash(state);
             }
             Value::Map(m) => {
-                for k in m.keys() {
+                //equal maps can iterate in different orders
+                let mut entries: Vec<_> = m.iter().collect();
+                entries.sort_unstable_by_key(|(k, _)| *k);
+                for (k, v) in entries {
                     k.hash(state);
-                }
-                for v in m.values() {
                     v.hash(state);
                 }
             }
@@ -264,6 +265,7 @@ impl Hash for Value {
                 }
             }
             Value::DoubleFloat(f) => {
+                let f = if *f == 0.0 { 0.0 } else { *f }; //-0.0 is equal to 0.0
                 match f.classify() {
                     FpCategory::Nan => 0,
                     FpCategory::Infinite => 1,
@@ -285,6 +287,7 @@ impl Hash for Value {
                 a.hash(state);
             }
             Value::SingleFloat(f) => {
+                let f = if *f == 0.0 { 0.0 } else { *f }; //-0.0 is equal to 0.0
                 match f.classify() {
                     FpCategory::Nan => 0,
                     FpCategory::Infinite => 1,
-- 
2.43.0


From 8e360399b744b64b152c5f4f418fed21481ab6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 16/27] fix: export timestamps to JSON in the format that
 importing expects

---
 crates/sourisdb/src/values.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 2c4377e..aef97fe 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -24,6 +24,7 @@
 //! // assert_eq!(example_value_array, deserialised); //order is preserved when serialising arrays
 //! ```
 use alloc::{
+    format,
     string::{FromUtf8Error, String, ToString},
     vec,
     vec::Vec,
@@ -319,8 +320,6 @@ impl Display for Value {
             Self::Map(m) => {
                 cfg_if! {
                     if #[cfg(feature = "std")] {
-                        use alloc::format;
-
                         let mut table = comfy_table::Table::new();
                         table
                             .set_header(vec!["Key", "Value"])
@@ -664,7 +663,7 @@ impl Value {
                     );
                 }
 
-                obj.insert("timestamp".into(), SJValue::String(ts.to_string()));
+                obj.insert("timestamp".into(), SJValue::String(format!("{ts:?}")));
 
                 SJValue::Object(obj)
             }
-- 
2.43.0


From b7db20c117fa85e575192ffbde7349c51635784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 17/27] fix: give zero an argument when converting it to polar
 form

---
 crates/sourisdb/src/types/imaginary.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index 963e922..4f10e7e 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -4,7 +4,6 @@
 
 use alloc::vec::Vec;
 use core::{
-    f64::consts::PI,
     fmt::{Display, Formatter},
     hash::Hash,
     num::FpCategory,
@@ -184,13 +183,7 @@ impl Imaginary {
     /// assert!((argument - expected_argument).abs() < f64::EPSILON);
     pub fn polar_from_cartesian(real: f64, imaginary: f64) -> Self {
         let modulus = real.hypot(imaginary);
-        let phi = (imaginary.abs() / real.abs()).atan();
-        let argument = match (real.is_sign_negative(), imaginary.is_sign_negative()) {
-            (true, true) => -PI + phi,
-            (true, false) => PI - phi,
-            (false, true) => -phi,
-            (false, false) => phi,
-        };
+        let argument = imaginary.atan2(real);
 
         Imaginary::PolarForm { modulus, argument }
     }
-- 
2.43.0


From df8c7ae83e7948d647c0992cc52b0427a03ef354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 18/27] fix: send the database name as a name-value pair when
 getting a store asynchronously

---
 crates/sourisdb/src/client/async_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index e87a755..6ed1fa0 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -184,7 +184,7 @@ impl AsyncClient {
         let rsp = self
             .client
             .get(&format!("http://{}:{}/v1/get_db", self.path, self.port))
-            .query(&["db_name", db_name])
+            .query(&[("db_name", db_name)])
             .send()
             .await?;
         
-- 
2.43.0


From 5093f14f08ef87486b0ba98aa1e69230a7501e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 19/27] fix: build a single-precision float when one is picked

---
 crates/mouse/src/value_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mouse/src/value_utils.rs b/crates/mouse/src/value_utils.rs
index ca57116..e20b66c 100644
--- a/crates/mouse/src/value_utils.rs
+++ b/crates/mouse/src/value_utils.rs
@@ -300,8 +300,8 @@ pub fn get_value_from_stdin(prompt: impl Display, theme: &dyn Theme) -> Result<V
             Value::DoubleFloat(f)
         }
         ValueTy::SingleFloat => {
-            let f: f64 = Input::with_theme(theme).with_prompt("Value:").interact()?;
-            Value::DoubleFloat(f)
+            let f: f32 = Input::with_theme(theme).with_prompt("Value:").interact()?;
+            Value::SingleFloat(f)
         }
         ValueTy::Timezone => {
             let chosen_index = FuzzySelect::with_theme(theme)
-- 
2.43.0


From d01408ba3b73eb835aad91d846d5d703c350afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 20/27] fix: check the name of every database that gets created

---
 crates/sourisd/src/error.rs           |  2 +-
 crates/sourisd/src/v1_routes/db.rs    |  4 ++--
 crates/sourisd/src/v1_routes/state.rs | 32 ++++++++++++++++++---------
 crates/sourisd/src/v1_routes/value.rs |  6 ++---
 4 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/crates/sourisd/src/error.rs b/crates/sourisd/src/error.rs
index d638bfb..9f5bc99 100644
--- a/crates/sourisd/src/error.rs
+++ b/crates/sourisd/src/error.rs
@@ -64,7 +64,7 @@ impl Display for SourisError {
             Self::ValueError(e) => write!(f, "Error with value: {e}"),
             Self::InvalidDatabaseName => write!(
                 f,
-                "Invalid database name - database names must be ASCII and not equal to `meta`"
+                "Invalid database name - database names must be ASCII, not equal to `meta`, and not contain path separators or null bytes"
             ),
             Self::IntegerSerError(e) => write!(f, "Error deserialising integer: {e:?}"),
         }
diff --git a/crates/sourisd/src/v1_routes/db.rs b/crates/sourisd/src/v1_routes/db.rs
index f69b819..7da287e 100644
--- a/crates/sourisd/src/v1_routes/db.rs
+++ b/crates/sourisd/src/v1_routes/db.rs
@@ -40,9 +40,9 @@ pub async fn add_db_with_content(
     body: Bytes,
 ) -> Result<StatusCode, SourisError> {
     let store = Store::deser(body.as_ref())?;
-    Ok(state
+    state
         .new_db_with_contents(name, overwrite_existing, store)
-        .await)
+        .await
 }
 
 pub async fn clear_db(
diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 711d141..7eb16a2 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -42,22 +42,31 @@ pub struct SourisState {
     db_cache: Cache<String, Bytes>,
 }
 
+///Checks that a new database can have a given name.
+///
+/// Every database is stored in a file with its name, so the name must not be able to leave the base location or to be the name of the database that stores the meta information.
+fn check_db_name(name: &str) -> Result<(), SourisError> {
+    if name == "meta" || !name.is_ascii() || name.contains(['/', '\\', '\0']) {
+        return Err(SourisError::InvalidDatabaseName);
+    }
+
+    Ok(())
+}
+
 impl SourisState {
     ///Create a new database.
     ///
     /// Returns [`StatusCode::OK`] if an existing database was present, or [`StatusCode::CREATED`] if a new database was created.
     ///
     /// ## Errors
-    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII or the name is `meta`.
+    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII, the name is `meta`, or the name contains a path separator or a null byte.
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn new_db(
         &self,
         name: String,
         overwrite_existing: bool,
     ) -> Result<StatusCode, SourisError> {
-        if name == "meta" || !name.is_ascii() {
-            return Err(SourisError::InvalidDatabaseName);
-        }
+        check_db_name(&name)?;
 
         let mut dbs = self.dbs.lock().await;
         
@@ -85,7 +94,9 @@ impl SourisState {
         name: String,
         overwrite_existing: bool,
         contents: Store,
-    ) -> StatusCode {
+    ) -> Result<StatusCode, SourisError> {
+        check_db_name(&name)?;
+
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
@@ -99,11 +110,11 @@ impl SourisState {
             }
         }
 
-        if created_new {
+        Ok(if created_new {
             StatusCode::CREATED
         } else {
             StatusCode::OK
-        }
+        })
     }
 
     ///returns whether it cleared a database
@@ -169,11 +180,11 @@ impl SourisState {
         &self,
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
-    ) -> CreationResult {
+    ) -> Result<CreationResult, SourisError> {
         self.db_cache.invalidate(&db_name).await;
 
         let mut dbs = self.dbs.lock().await;
-        match dbs.entry(db_name) {
+        Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
                 match db.entry(key) {
@@ -193,6 +204,7 @@ impl SourisState {
             }
             SEntry::Vacant(vac) => {
                 if create_new_database {
+                    check_db_name(vac.key())?;
                     let db = vac.insert(Store::default());
                     db.insert(key, v);
                     CreationResult::InsertedKeyIntoNewDB
@@ -200,7 +212,7 @@ impl SourisState {
                     CreationResult::UnableToFindDB
                 }
             }
-        }
+        })
     }
 
     pub async fn get_value(
diff --git a/crates/sourisd/src/v1_routes/value.rs b/crates/sourisd/src/v1_routes/value.rs
index 6bfa84c..4c789bb 100644
--- a/crates/sourisd/src/v1_routes/value.rs
+++ b/crates/sourisd/src/v1_routes/value.rs
@@ -24,10 +24,10 @@ pub async fn add_kv(
     Query(nka): Query<NewKeyArgs>,
     State(state): State<SourisState>,
     value: Value,
-) -> Json<CreationResult> {
+) -> Result<Json<CreationResult>, SourisError> {
     info!(?value, "Adding value");
-    let cr = state.add_key_value_pair(nka, value).await;
-    Json(cr)
+    let cr = state.add_key_value_pair(nka, value).await?;
+    Ok(Json(cr))
 }
 
 #[axum::debug_handler]
-- 
2.43.0


From 77f87300b08fbbf5a116ae4e7830a111fceaf665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 21/27] fix: report whether a database with contents was
 created the right way round

---
 crates/sourisd/src/v1_routes/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 7eb16a2..b9ad65b 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -100,7 +100,7 @@ impl SourisState {
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
-        let created_new = dbs.contains_key(&name);
+        let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
         if overwrite_existing {
             *current = contents;
-- 
2.43.0


From 5cb6fb7ef9895b24a897db298a7fb0938964bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 22/27] fix: invalidate the cached database while holding the
 lock, so that an old copy cannot be cached again

---
 crates/sourisd/src/v1_routes/state.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b9ad65b..6696ef5 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -97,8 +97,8 @@ impl SourisState {
     ) -> Result<StatusCode, SourisError> {
         check_db_name(&name)?;
 
-        self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
@@ -120,9 +120,8 @@ impl SourisState {
     ///returns whether it cleared a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn clear_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if let SEntry::Occupied(mut e) = dbs.entry(name) {
             e.insert(Store::default());
@@ -136,9 +135,8 @@ impl SourisState {
     ///returns whether it removed a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn remove_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if !dbs.contains_key(&name) {
             return Err(SourisError::DatabaseNotFound);
@@ -181,9 +179,9 @@ impl SourisState {
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
     ) -> Result<CreationResult, SourisError> {
+        let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&db_name).await;
 
-        let mut dbs = self.dbs.lock().await;
         Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
@@ -232,8 +230,8 @@ impl SourisState {
     }
 
     pub async fn remove_key(&self, KeyAndDb { key, db_name }: KeyAndDb) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&db_name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&db_name).await;
 
         let Some(db) = dbs.get_mut(&db_name) else {
             return Err(SourisError::DatabaseNotFound);
-- 
2.43.0


From 1946c2df027a4301e9152686222e10f6137c3bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 23/27] fix: keep the lock while removing the file of a
 database

---
 crates/sourisd/src/v1_routes/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 6696ef5..1fcee97 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -143,8 +143,8 @@ impl SourisState {
         }
 
         dbs.remove(&name);
-        drop(dbs);
 
+        //keep the lock so that this cannot remove the file of a new database with the same name
         let file_name = self.base_location.join(format!("{name}.sdb"));
 
         if let Err(e) = tokio::fs::remove_file(file_name).await {
-- 
2.43.0


From 9ce6022840270a70b406f547d124eeeacc1f717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 24/27] fix: do not forget a database because it could not be
 written once

---
 crates/sourisd/src/v1_routes/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 1fcee97..b67c897 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -351,9 +351,9 @@ impl SourisState {
 
             if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
                 error!(?e, "Error writing out database");
-            } else {
-                names.push(Value::String(name.to_string()));
             }
+            //even if it couldn't be written, it still exists - and so might an older version of its file
+            names.push(Value::String(name.to_string()));
         }
 
         let mut meta = Store::default();
-- 
2.43.0


From c9cdbe40cbd9b95463c2b98783a0b7d0cbbb18dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 25/27] fix: replace saved files atomically, so that a crash
 cannot leave half of one

---
 crates/sourisd/src/v1_routes/state.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b67c897..12ceead 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -12,7 +12,7 @@ use std::{
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     io::{AsyncReadExt, AsyncWriteExt, ErrorKind},
     sync::Mutex,
 };
@@ -370,7 +370,12 @@ async fn write_to_file(
     path: impl AsRef<Path> + Debug,
     base_location: impl AsRef<Path> + Debug,
 ) -> color_eyre::Result<()> {
-    let mut file = match File::create(&path).await {
+    //the old file stays as it is until all of the new one is on the disk
+    let mut temp_path = path.as_ref().as_os_str().to_owned();
+    temp_path.push(".tmp");
+    let temp_path = PathBuf::from(temp_path);
+
+    let mut file = match File::create(&temp_path).await {
         Ok(f) => f,
         Err(e) => {
             if e.kind() == ErrorKind::NotFound {
@@ -378,7 +383,7 @@ async fn write_to_file(
                 trace!(?path, ?base_location, "Unable to find folder, creating");
 
                 create_dir_all(&base_location).await?;
-                File::create(path).await?
+                File::create(&temp_path).await?
             } else {
                 return Err(e.into());
             }
@@ -386,6 +391,10 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.sync_all().await?;
+    drop(file);
+
+    rename(temp_path, path).await?;
 
     Ok(())
 }
-- 
2.43.0


From c68a5824bffc398bd1e6760d4fd780dbaa70ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 26/27] fix: save once more after the last request has been
 served

---
 crates/sourisd/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index e06e473..b6d3c7c 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -148,4 +148,9 @@ async fn main() {
         .with_graceful_shutdown(shutdown_signal(stop_tx, saver))
         .await
         .unwrap();
+
+    //requests that were still running when the saver stopped can have made changes
+    if let Err(e) = state.save().await {
+        error!(?e, "Error saving state");
+    }
 }
-- 
2.43.0


From cc1d44a349d3c91205460fa7c49a4565a77c04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 27/27] fix: the async client takes a failed listing of the
 databases for an answer

---
 crates/sourisdb/src/client/async_client.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index 6ed1fa0..16838f1 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -92,16 +92,17 @@ impl AsyncClient {
     /// - [`reqwest::Error`] if there is an error with the HTTP request, or we cannot get the raw bytes out
     /// - [`ClientError::HttpErrorCode`] if an HTTP Error status code is encountered.
     pub async fn get_all_dbs(&self) -> Result<Vec<String>, ClientError> {
-        Ok(self
+        let rsp = self
             .client
             .get(&format!(
                 "http://{}:{}/v1/get_all_db_names",
                 self.path, self.port
             ))
             .send()
-            .await?
-            .json()
-            .await?)
+            .await?;
+        rsp.error_for_status_to_client_error()?;
+
+        Ok(rsp.json().await?)
     }
 
     ///Creates a new [`Store`] in the connected database with the given name. Returns whether a new database had to be created.
-- 
2.43.0

