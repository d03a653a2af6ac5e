From f1f66d34fc7c29a7bb1b4c89e35e693ea71cfa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 01/15] fix: Pool::get rejects the index equal to the length
 instead of panicking

---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9861e95..3dcfb1f 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -349,7 +349,7 @@ impl Pool {
     /// If the index is 0 or greater than the size of the pool, an error is returned.
     pub fn get(&self, index: u16) -> Result<&Item> {
         // bounds checking
-        if index != 0 && index <= self.len() {
+        if index != 0 && index < self.len() {
             if let Some(ref item) = self.by_index[index as usize - 1] {
                 return Ok(item);
             }
-- 
2.43.0


From 60993d76a2138f07c4b8303b49ac9f6cf76e0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 02/15] fix: the default pool is an empty pool of length 1

---
 src/basic/constpool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 3dcfb1f..331a528 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -309,13 +309,18 @@ pub enum ReferenceKind {
 /// A `Vec` and a `HashMap` is used internally to have fast lookups by index and value.
 /// To connect both, `Rc`s are used.
 /// As a result, we will have a little overhead, but this should be negligible.
-#[derive(Default)]
 pub struct Pool {
     length: u16,
     by_index: Vec<Option<Rc<Item>>>,
     by_entry: HashMap<Rc<Item>, u16>,
 }
 
+impl Default for Pool {
+    fn default() -> Self {
+        Pool::new()
+    }
+}
+
 impl Pool {
     pub fn new() -> Self {
         Pool {
-- 
2.43.0


From 30f0eadcdad0731c05e834ca0a4ab2bff36b9426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 03/15] fix: iterating over a pool yields the index of each
 item

---
 src/basic/constpool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 331a528..b6243be 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -453,10 +453,10 @@ impl<'a> Iterator for PoolIter<'a> {
     type Item = (u16, &'a Item);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.index += 1;
         if let Some(rc_item) = self.iter.next() {
+            self.index += 1;
             if let Some(ref item) = *rc_item {
-                Some((self.index + 1, item))
+                Some((self.index, item))
             } else {
                 self.next()
             }
-- 
2.43.0


From 68ac9922dbf0a7a736fa03fd50b20a50609be60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 04/15] fix: a long or double that does not fit is refused with
 CPTooLarge

---
 src/basic/constpool.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index b6243be..9b35942 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -397,11 +397,17 @@ impl Pool {
 
     /// Pushes an item on the pool.
     pub fn push(&mut self, item: Item) -> Result<u16> {
-        if self.len() == u16::max_value() {
-            return Err(Error::CPTooLarge);
+        // an item that is already in the pool needs no space
+        if let Some(index) = self.by_entry.get(&item) {
+            return Ok(*index);
         }
 
         let double = item.is_double();
+        let space = if double { 2 } else { 1 };
+        if space > u16::max_value() - self.len() {
+            return Err(Error::CPTooLarge);
+        }
+
         let length = &mut self.length;
 
         let rc_item = Rc::new(item);
-- 
2.43.0


From 3bd9f72ca85b76b51692fb3986597a2b1c85c7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 05/15] fix: constants are parsed to the indices they have in
 the class file

---
 src/basic/constpool.rs  | 32 ++++++++++++++++++--------------
 src/basic/parser/mod.rs |  5 +++--
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9b35942..79e55ff 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -402,6 +402,12 @@ impl Pool {
             return Ok(*index);
         }
 
+        self.append(item)
+    }
+
+    /// Appends an item at the next index, even if an equal one is in the pool already.
+    /// The indices found in a class file depend on it.
+    pub(super) fn append(&mut self, item: Item) -> Result<u16> {
         let double = item.is_double();
         let space = if double { 2 } else { 1 };
         if space > u16::max_value() - self.len() {
@@ -411,24 +417,22 @@ impl Pool {
         let length = &mut self.length;
 
         let rc_item = Rc::new(item);
-        let rc_item1 = Rc::clone(&rc_item);
 
         let by_index = &mut self.by_index;
+        by_index.push(Some(Rc::clone(&rc_item)));
 
-        // check if in pool, if not insert it
-        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
-            by_index.push(Some(Rc::clone(&rc_item1)));
+        let prev_length = *length;
+        if double {
+            // long and double take an additional space
+            by_index.push(None);
+            *length += 2;
+        } else {
+            *length += 1;
+        }
 
-            let prev_length = *length;
-            if double {
-                // long and double take an additional space
-                by_index.push(None);
-                *length += 2;
-            } else {
-                *length += 1;
-            }
-            prev_length
-        }))
+        // the first of several equal items is the one found by value
+        self.by_entry.entry(rc_item).or_insert(prev_length);
+        Ok(prev_length)
     }
 
     pub fn iter(&self) -> PoolIter {
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index f620734..59727e1 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -156,8 +156,9 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
             _ => return Err(Error::InvalidCPItem(index)),
         };
 
-        pool.push(item)?;
-        index += 1;
+        // long and double take two indices
+        pool.append(item)?;
+        index = pool.len();
     }
 
     Ok(pool)
-- 
2.43.0


From c20c82e2ddb1ee4e29da2d4ce1cef64113bcaa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 06/15] fix: malformed modified UTF-8 is refused instead of
 decoded to other characters

---
 src/basic/parser/decode.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 8029079..af77f24 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -123,20 +123,23 @@ impl<'a> Decoder<'a> {
             } else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {
                 // 2 bytes
                 i -= 2;
-                let r2 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
                 (r1 & 0x1F) << 6 | (r2 & 0x3F)
             } else if r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {
                 i -= 3;
-                let r2 = u32::from(self.read_u8()?);
-                let r3 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
+                let r3 = self.read_continuation()?;
                 if r1 == 0xED && r2 >= 0xA0 && r2 <= 0xAF {
                     if i >= 3 {
                         i -= 3;
 
-                        self.read_u8()?;
-                        let r5 = u32::from(self.read_u8()?);
-                        let r6 = u32::from(self.read_u8()?);
-                        // r1 and r4 can be ignored
+                        let r4 = self.read_u8()?;
+                        let r5 = self.read_continuation()?;
+                        let r6 = self.read_continuation()?;
+                        // a low surrogate has to follow
+                        if r4 != 0xED || r5 < 0xB0 {
+                            return Err(Error::InvalidUTF8);
+                        }
                         0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                             + (r6 & 0x3F)
                     } else {
@@ -158,6 +161,16 @@ impl<'a> Decoder<'a> {
         Ok(out)
     }
 
+    /// Reads a byte, which has to be a continuation byte of a modified UTF-8 string.
+    fn read_continuation(&mut self) -> Result<u32> {
+        let byte = self.read_u8()?;
+        if byte & 0xC0 == 0x80 {
+            Ok(u32::from(byte))
+        } else {
+            Err(Error::InvalidUTF8)
+        }
+    }
+
     /// Checks for bounds
     fn check(&self, location: usize) -> Result<()> {
         if location <= self.limit {
-- 
2.43.0


From d1650b790ac0a67fcf83f395d42fba0dd9f8bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 07/15] fix: wide astore has op code 0x3A

---
 src/basic/parser/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 8227f42..3cd6517 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -329,7 +329,7 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             0x37 => LStore(decoder.read_u16()?),
             0x38 => FStore(decoder.read_u16()?),
             0x39 => DStore(decoder.read_u16()?),
-            0x40 => AStore(decoder.read_u16()?),
+            0x3A => AStore(decoder.read_u16()?),
             0x84 => {
                 let index = decoder.read_u16()?;
                 let value = decoder.read_i16()?;
-- 
2.43.0


From dc07ffdbfc74c297fe0e68bff07a4eb639525a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 08/15] fix: the attribute is called EnclosingMethod

---
 src/basic/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 59727e1..54234fa 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -229,7 +229,7 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
                 Attribute::ConstantValue(index)
             }
             "Deprecated" => Attribute::Deprecated,
-            "EnclosingMethods" => parse_enclosing_method(&mut attr_decoder)?,
+            "EnclosingMethod" => parse_enclosing_method(&mut attr_decoder)?,
             "Exceptions" => parse_exceptions(&mut attr_decoder)?,
             "InnerClasses" => parse_inner_classes(&mut attr_decoder)?,
             "LineNumberTable" => parse_line_number_table(&mut attr_decoder)?,
-- 
2.43.0


From c5a214cda50058a5789fa8e15a61abf2c6bb81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 09/15] fix: the flags MODULE and MANDATED are 0x8000

---
 src/basic/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/tree.rs b/src/basic/tree.rs
index ff92693..2c7e173 100644
--- a/src/basic/tree.rs
+++ b/src/basic/tree.rs
@@ -110,8 +110,8 @@ bitflags! {
         const SYNTHETIC    = 0b0001_0000_0000_0000;
         const ANNOTATION   = 0b0010_0000_0000_0000;
         const ENUM         = 0b0100_0000_0000_0000;
-        const MODULE       = 0b1000_0000_0000_0001;
-        const MANDATED     = 0b1000_0000_0000_0001;
+        const MODULE       = 0b1000_0000_0000_0000;
+        const MANDATED     = 0b1000_0000_0000_0000;
     }
 }
 
-- 
2.43.0


From 85997c7cbd03cee5d3d040988421479e1b614aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 10/15] fix: the local variable table of a type annotation has
 a two byte length

---
 src/basic/parser/annotation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index b4bfced..d7717dd 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -155,7 +155,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
-    let length = decoder.read_u8()?;
+    let length = decoder.read_u16()?;
     let mut table = Vec::with_capacity(length as usize);
 
     for _ in 0..length {
-- 
2.43.0


From 625d10ca3d57acaa8ff75f6ac394a37f14b72ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 11/15] fix: the MethodParameters attribute has a one byte
 count

---
 src/basic/parser/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 01ca8a6..22333a7 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -155,7 +155,7 @@ fn parse_verification_type(decoder: &mut Decoder) -> Result<VerificationType> {
 
 /// Parses the `MethodParameters` attribute.
 pub fn parse_method_parameters(decoder: &mut Decoder) -> Result<Attribute> {
-    let count = decoder.read_u16()?;
+    let count = decoder.read_u8()?;
     let mut params = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let name = decoder.read_u16()?;
-- 
2.43.0


From a2a539e333f4d34d339a06cb3b977221553687a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 12/15] fix: the space for bootstrap arguments depends on their
 own count

---
 src/basic/parser/class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/class.rs b/src/basic/parser/class.rs
index a9f39e0..0d8a972 100644
--- a/src/basic/parser/class.rs
+++ b/src/basic/parser/class.rs
@@ -7,8 +7,8 @@ pub fn parse_bootstrap_methods(decoder: &mut Decoder) -> Result<Attribute> {
     let mut bootstrap_methods = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let method_ref = decoder.read_u16()?;
-        let mut arguments = Vec::with_capacity(count as usize);
         let count = decoder.read_u16()?;
+        let mut arguments = Vec::with_capacity(count as usize);
         for _ in 0..count {
             arguments.push(decoder.read_u16()?);
         }
-- 
2.43.0


From e0f9107a89e83979017e66506d6366fc41741bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 13/15] fix: a tableswitch with any bounds is read or refused
 without overflow

---
 src/basic/parser/code.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 3cd6517..6a8ddb8 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -248,8 +248,13 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             let low = decoder.read_i32()?;
             let high = decoder.read_i32()?;
 
-            let mut offsets = Vec::with_capacity((high - low + 1) as usize);
-            for _ in low..(high + 1) {
+            if low > high {
+                return Err(Error::InvalidInstruction { op_code: 0xAA, at });
+            }
+
+            // the number of offsets is not to be trusted before they are read
+            let mut offsets = Vec::new();
+            for _ in low..=high {
                 offsets.push(decoder.read_i32()?);
             }
 
-- 
2.43.0


From e26b1b75effffac06e2104c89c9d545cae6fd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 14/15] fix: the nesting of attributes and element values is
 bounded

---
 src/basic/parser/annotation.rs |  9 +++++----
 src/basic/parser/decode.rs     | 16 ++++++++++++++++
 src/basic/parser/mod.rs        |  2 +-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index d7717dd..b1bd43d 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -34,7 +34,7 @@ pub fn parse_type_annotations(decoder: &mut Decoder) -> Result<Vec<TypeAnnotatio
 fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
     let type_index = decoder.read_u16()?;
     let count = decoder.read_u16()?;
-    let mut element_value_pairs = Vec::with_capacity(count as usize);
+    let mut element_value_pairs = Vec::new();
 
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
@@ -71,14 +71,15 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
             })
         }
         b'@' => Ok(ElementValue::Annotation(Box::new(parse_annotation(
-            decoder,
+            &mut decoder.nest()?,
         )?))),
         b'[' => {
             let count = decoder.read_u16()?;
-            let mut element_values = Vec::with_capacity(count as usize);
+            let mut decoder = decoder.nest()?;
+            let mut element_values = Vec::new();
 
             for _ in 0..count {
-                element_values.push(parse_element_value(decoder)?);
+                element_values.push(parse_element_value(&mut decoder)?);
             }
 
             Ok(ElementValue::Array(element_values))
diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index af77f24..9d0d71a 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -5,10 +5,14 @@ use result::*;
 use byteorder::{BigEndian, ByteOrder};
 use std::char;
 
+/// How deep attributes and element values may be nested.
+const MAX_DEPTH: u32 = 64;
+
 pub struct Decoder<'a> {
     bytes: &'a [u8],
     cursor: &'a mut usize,
     limit: usize,
+    depth: u32,
 }
 
 impl<'a> Decoder<'a> {
@@ -19,6 +23,7 @@ impl<'a> Decoder<'a> {
             bytes,
             cursor,
             limit: bytes.len(),
+            depth: 0,
         }
     }
 
@@ -26,13 +31,24 @@ impl<'a> Decoder<'a> {
     pub fn limit(&mut self, to: usize) -> Result<Decoder> {
         let end = *self.cursor + to;
         self.check(end)?;
+        // nesting is bounded, because everything nested is parsed recursively
+        if self.depth >= MAX_DEPTH {
+            return Err(Error::LimitExceeded);
+        }
         Ok(Decoder {
             bytes: self.bytes,
             cursor: self.cursor,
             limit: end,
+            depth: self.depth + 1,
         })
     }
 
+    /// Enters something nested that has no length of its own
+    pub fn nest(&mut self) -> Result<Decoder> {
+        let rest = self.limit - *self.cursor;
+        self.limit(rest)
+    }
+
     /// Removes the limit and returns an error if the limit was exceeded, or not reached
     pub fn remove_limit(self) -> Result<()> {
         if self.limit == *self.cursor {
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 54234fa..14ab404 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -209,7 +209,7 @@ fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Meth
 /// Parses all attributes
 fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Attribute>> {
     let count = decoder.read_u16()?;
-    let mut attributes = Vec::with_capacity(count as usize);
+    let mut attributes = Vec::new();
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
         let name = constant_pool.get_utf8(name_index)?;
-- 
2.43.0


From f24be9c387b5f34ad46b6093878d0ab955831c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 15/15] fix: do not copy the name of an attribute

The name was cloned for every attribute. With a name of 65535 bytes,
an attribute of six bytes made the parser copy 64 KiB, so a file of a
few hundred kilobytes caused gigabytes of copying.
---
 src/basic/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 14ab404..77d0dc5 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -212,7 +212,11 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
     let mut attributes = Vec::new();
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
-        let name = constant_pool.get_utf8(name_index)?;
+        // the name may be long, and used by many attributes
+        let name: &str = match *constant_pool.get(name_index)? {
+            Item::UTF8(ref name) => name,
+            _ => return Err(Error::InvalidCPItem(name_index)),
+        };
         let length = decoder.read_u32()?;
 
         // limit attribute length
-- 
2.43.0

