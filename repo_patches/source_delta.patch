From a1823ded039b24e1217c68b2057c2ef1fbebec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 01/15] fix: reject negative offsets and sizes in dictionaries

A negative size made the allocation of a private dictionary panic, and a
negative offset overflowed or pointed before the start of the font set.
---
 src/compact1/font_set/character_id_keyed.rs   | 11 +++++++----
 src/compact1/font_set/character_name_keyed.rs |  7 +++++--
 src/compact1/font_set/mod.rs                  | 17 ++++++++++++-----
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 517d302..d61e71b 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -74,9 +74,9 @@ impl<'l> crate::walue::Read<'l> for Record {
             Some(operands) if operands.len() == 3 => operands,
             _ => raise!("found a malformed character-ID-keyed record"),
         };
-        let offset = get!(@single top_operations, FDSelect);
+        let offset = get!(@offset top_operations, FDSelect);
         let encoding = jump_take_given!(@unwrap tape, position, offset, character_strings);
-        let offset = get!(@single top_operations, FDArray);
+        let offset = get!(@offset top_operations, FDArray);
         let operations: Dictionaries = jump_take!(@unwrap tape, position, offset);
         let operations: Vec<_> = (&operations).try_into()?;
         let mut records = vec![];
@@ -103,11 +103,14 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
     ) -> Result<Self> {
         use crate::tape::Read;
 
-        let (size, offset) = get!(@double top_operations, Private);
+        let (size, offset) = get!(@range top_operations, Private);
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => match offset.checked_add(another_offset) {
+                Some(offset) if offset >= 0 => jump_take!(@unwrap tape, position, offset),
+                _ => raise!("found a malformed operation with operator Subrs"),
+            },
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 7732ffc..04259b5 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -22,11 +22,14 @@ impl<'l> crate::walue::Read<'l> for Record {
     ) -> Result<Self> {
         use crate::tape::Read;
 
-        let (size, offset) = get!(@double top_operations, Private);
+        let (size, offset) = get!(@range top_operations, Private);
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => match offset.checked_add(another_offset) {
+                Some(offset) if offset >= 0 => jump_take!(@unwrap tape, position, offset),
+                _ => raise!("found a malformed operation with operator Subrs"),
+            },
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/mod.rs b/src/compact1/font_set/mod.rs
index 5ee2955..88dfdb2 100644
--- a/src/compact1/font_set/mod.rs
+++ b/src/compact1/font_set/mod.rs
@@ -15,9 +15,16 @@ macro_rules! get(
             _ => None,
         }
     );
-    (@double $operations:expr, $operator:ident) => (
+    (@offset $operations:expr, $operator:ident) => (
+        match get!(@single $operations, $operator) {
+            value if value >= 0 => value,
+            _ => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
+        }
+    );
+    (@range $operations:expr, $operator:ident) => (
         match $operations.get_double(crate::compact1::Operator::$operator) {
-            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1))) => (value0, value1),
+            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1)))
+                if value0 >= 0 && value1 >= 0 => (value0, value1),
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
@@ -79,10 +86,10 @@ impl crate::value::Read for FontSet {
                 @unwrap
                 tape,
                 position,
-                get!(@single operations, CharStrings),
+                get!(@offset operations, CharStrings),
                 get!(@single operations, CharStringType)
             ));
-            character_sets.push(match get!(@single operations, CharSet) {
+            character_sets.push(match get!(@offset operations, CharSet) {
                 0 => CharacterSet::ISOAdobe,
                 1 => CharacterSet::Expert,
                 2 => CharacterSet::ExpertSubset,
@@ -94,7 +101,7 @@ impl crate::value::Read for FontSet {
                     character_strings[i].count as usize
                 ),
             });
-            encodings.push(match get!(@single operations, Encoding) {
+            encodings.push(match get!(@offset operations, Encoding) {
                 0 => Encoding::Standard,
                 1 => Encoding::Expert,
                 offset => jump_take!(@unwrap tape, position, offset),
-- 
2.43.0


From e084d89a9208c73cc217642e1d1b4651960c28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 02/15] fix: reject a character set in format 0 for no glyphs

The number of stored glyphs excludes .notdef, and its computation
underflowed for a font without glyphs.
---
 src/compact1/character_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 663eb5b..889690c 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -93,7 +93,7 @@ impl crate::walue::Read<'static> for CharacterSet0 {
 
     fn read<T: crate::tape::Read>(tape: &mut T, glyph_count: usize) -> Result<Self> {
         let format = tape.take::<u8>()?;
-        if format != 0 {
+        if format != 0 || glyph_count == 0 {
             raise!("found a malformed character set");
         }
         Ok(CharacterSet0 {
-- 
2.43.0


From 7d7995efba7d023594103bdcc1b526f51ee25350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 03/15] fix: do not allocate announced sizes in advance

A size in an index or a private dictionary led to an allocation of up to
four gigabytes before a single byte was read.
---
 src/compact1/font_set/character_id_keyed.rs   |  5 +++--
 src/compact1/font_set/character_name_keyed.rs |  5 +++--
 src/compact1/index/mod.rs                     |  4 ++--
 src/compact1/mod.rs                           | 11 +++++++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index d61e71b..4082841 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -3,7 +3,7 @@
 use std::io::Cursor;
 
 use crate::compact1::index::{CharacterStrings, Dictionaries, Subroutines};
-use crate::compact1::{GlyphID, Number, Operations, Operator, StringID};
+use crate::compact1::{read_bytes, GlyphID, Number, Operations, Operator, StringID};
 use crate::Result;
 
 /// A character-ID-keyed record in a font set.
@@ -104,7 +104,8 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         use crate::tape::Read;
 
         let (size, offset) = get!(@range top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        tape.jump(position + offset as u64)?;
+        let chunk = read_bytes(tape, size as usize)?;
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
             Some(another_offset) => match offset.checked_add(another_offset) {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 04259b5..2bbd320 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -3,7 +3,7 @@
 use std::io::Cursor;
 
 use crate::compact1::index::Subroutines;
-use crate::compact1::Operations;
+use crate::compact1::{read_bytes, Operations};
 use crate::Result;
 
 /// A character-name-keyed record in a font set.
@@ -23,7 +23,8 @@ impl<'l> crate::walue::Read<'l> for Record {
         use crate::tape::Read;
 
         let (size, offset) = get!(@range top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        tape.jump(position + offset as u64)?;
+        let chunk = read_bytes(tape, size as usize)?;
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
             Some(another_offset) => match offset.checked_add(another_offset) {
diff --git a/src/compact1/index/mod.rs b/src/compact1/index/mod.rs
index d5f36ce..b8995b4 100644
--- a/src/compact1/index/mod.rs
+++ b/src/compact1/index/mod.rs
@@ -1,6 +1,6 @@
 //! The indices.
 
-use crate::compact1::{Offset, OffsetSize};
+use crate::compact1::{read_bytes, Offset, OffsetSize};
 use crate::Result;
 
 table! {
@@ -42,7 +42,7 @@ impl crate::value::Read for Index {
                 raise!("found a malformed index");
             }
             let size = (offsets[i + 1].0 - offsets[i].0) as usize;
-            data.push(tape.take_given(size)?);
+            data.push(read_bytes(tape, size)?);
         }
         Ok(Index {
             count,
diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 6c026dc..290bfe9 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -23,6 +23,17 @@ pub use operation::{Operand, Operations, Operator};
 
 use crate::{Error, Result};
 
+/// Read a number of bytes without trusting the number in advance.
+fn read_bytes<T: crate::tape::Read>(tape: &mut T, size: usize) -> Result<Vec<u8>> {
+    use std::io::{ErrorKind, Read};
+
+    let mut bytes = vec![];
+    if Read::take(tape, size as u64).read_to_end(&mut bytes)? < size {
+        return Err(ErrorKind::UnexpectedEof.into());
+    }
+    Ok(bytes)
+}
+
 /// A glyph identifier.
 pub type GlyphID = u16;
 
-- 
2.43.0


From ba4d6950a63e2e9fe84fbe402ad5db8d9a37ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 04/15] fix: reject operations that are cut short

The end of a dictionary was accepted in the middle of an operation, which
dropped the operation.
---
 src/compact1/operation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compact1/operation.rs b/src/compact1/operation.rs
index 613d314..3d9aa56 100644
--- a/src/compact1/operation.rs
+++ b/src/compact1/operation.rs
@@ -55,8 +55,9 @@ impl crate::value::Read for Operations {
 
         let mut operations = HashMap::new();
         loop {
-            match tape.take() {
-                Ok(Operation(operator, operands)) => {
+            match tape.peek::<u8>() {
+                Ok(_) => {
+                    let Operation(operator, operands) = tape.take()?;
                     operations.insert(operator, operands);
                 }
                 Err(error) => {
-- 
2.43.0


From ad045726a38c81282157f5d656afa4be6e913ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 05/15] fix: reject string identifiers that are out of range

An identifier above 65535 was reduced modulo 65536.
---
 src/compact1/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 290bfe9..c6940de 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -46,7 +46,7 @@ impl TryFrom<Number> for StringID {
     #[inline]
     fn try_from(number: Number) -> Result<Self> {
         match number {
-            Number::Integer(value) if value >= 0 => Ok(value as Self),
+            Number::Integer(value) if value >= 0 && value <= Self::MAX as i32 => Ok(value as Self),
             _ => raise!("found a malformed string ID"),
         }
     }
-- 
2.43.0


From 013b5b217406dd1a435bd71f63285dda8d7dcb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 06/15] fix: do not recurse between the operators of a program

A long run of arithmetic or subroutine operators exhausted the call stack.
---
 src/type2/program.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index eda4344..5f9bc1f 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -1,4 +1,5 @@
 use std::io::Cursor;
+use std::ops::ControlFlow;
 
 use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
@@ -36,12 +37,21 @@ impl<'l> Program<'l> {
 
     /// Return the next operation.
     #[allow(clippy::should_implement_trait)]
-    #[allow(unused_comparisons, unused_must_use)]
     pub fn next(&mut self) -> Result<Option<Operation>> {
+        loop {
+            if let ControlFlow::Break(operation) = self.execute()? {
+                return Ok(operation);
+            }
+        }
+    }
+
+    /// Execute the next operator.
+    #[allow(unused_comparisons, unused_must_use)]
+    fn execute(&mut self) -> Result<ControlFlow<Option<Operation>>> {
         use crate::type2::Operator::*;
 
         if self.routine.done()? {
-            return Ok(None);
+            return Ok(ControlFlow::Break(None));
         }
 
         macro_rules! pop(
@@ -132,7 +142,7 @@ impl<'l> Program<'l> {
                 if min > 0 && self.width.is_none() {
                     self.width = Some(stack[min - 1]);
                 }
-                return Ok(Some((operator, operands)));
+                return Ok(ControlFlow::Break(Some((operator, operands))));
             });
         );
 
@@ -167,7 +177,7 @@ impl<'l> Program<'l> {
                 if length > 0 && self.width.is_none() {
                     self.width = Some(self.stack[length - 1]);
                 }
-                return Ok(None);
+                return Ok(ControlFlow::Break(None));
             }
 
             // Hint operators
@@ -286,7 +296,7 @@ impl<'l> Program<'l> {
 
             operator => raise!("found an unknown operator ({operator:?})"),
         };
-        self.next()
+        Ok(ControlFlow::Continue(()))
     }
 
     /// Return the width difference with respect to the nominal width.
-- 
2.43.0


From 6c6256649002bb1db537f6ab7f736f679d21f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 07/15] fix: limit the nesting of subroutines

A subroutine calling itself never stopped and exhausted the memory. The limit
is the one of the Type 2 specification.
---
 src/type2/program.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 5f9bc1f..e7d94a9 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -5,6 +5,9 @@ use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
 use crate::Result;
 
+/// The maximum depth of nested subroutines.
+const MAX_SUBROUTINE_DEPTH: usize = 10;
+
 /// A program.
 pub struct Program<'l> {
     routine: Routine<'l>,
@@ -18,6 +21,7 @@ pub struct Program<'l> {
 struct Routine<'l> {
     tape: Cursor<&'l [u8]>,
     size: usize,
+    depth: usize,
     caller: Option<Box<Routine<'l>>>,
 }
 
@@ -283,6 +287,10 @@ impl<'l> Program<'l> {
                     }
                     Routine::new(&subroutines[i as usize])
                 };
+                routine.depth = self.routine.depth + 1;
+                if routine.depth > MAX_SUBROUTINE_DEPTH {
+                    raise!("found too many nested subroutines");
+                }
                 std::mem::swap(&mut self.routine, &mut routine);
                 self.routine.caller = Some(Box::new(routine));
             }
@@ -312,6 +320,7 @@ impl<'l> Routine<'l> {
         Routine {
             tape: Cursor::new(code),
             size: code.len(),
+            depth: 0,
             caller: None,
         }
     }
-- 
2.43.0


From db3611a004111debc2b3e17ec0e6f30a42120910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 08/15] fix: roll operands in one go

A large shift took billions of iterations, and the smallest one overflowed.
---
 src/type2/program.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index e7d94a9..7acf30b 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -230,20 +230,8 @@ impl<'l> Program<'l> {
                     raise!("expected more operands");
                 } else if span > 0 {
                     let position = length - span as usize;
-                    match shift.cmp(&0) {
-                        std::cmp::Ordering::Greater => {
-                            for _ in 0..shift {
-                                let operand = pop!();
-                                self.stack.insert(position, operand);
-                            }
-                        }
-                        std::cmp::Ordering::Less => {
-                            for _ in 0..(-shift) {
-                                push!(self.stack.remove(position));
-                            }
-                        }
-                        _ => {}
-                    }
+                    let shift = shift.rem_euclid(span) as usize;
+                    self.stack[position..].rotate_right(shift);
                 }
             }
             Dup => push!(read!(0)),
-- 
2.43.0


From fa36d7b45176eb4167e176e8b01b1659bc909103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 09/15] fix: do not overflow on a large subroutine number

---
 src/type2/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 7acf30b..259c11e 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -269,7 +269,7 @@ impl<'l> Program<'l> {
                         &self.global
                     };
                     let count = subroutines.len();
-                    let i = address + bias(count);
+                    let i = address.saturating_add(bias(count));
                     if i < 0 || i as usize >= count {
                         raise!("found no subroutine");
                     }
-- 
2.43.0


From 852189ebc15e99d12465765fd605e94537ff09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 10/15] fix: do not take stems and accents for the width

The implied vertical stems of hintmask and cntrmask and the operands of an
accented endchar were mistaken for the width.
---
 src/type2/program.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 259c11e..af0f262 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -177,9 +177,8 @@ impl<'l> Program<'l> {
                     }
                     std::mem::replace(&mut self.routine, *caller);
                 }
-                let length = self.stack.len();
-                if length > 0 && self.width.is_none() {
-                    self.width = Some(self.stack[length - 1]);
+                if matches!(self.stack.len(), 1 | 5) && self.width.is_none() {
+                    self.width = Some(self.stack[0]);
                 }
                 return Ok(ControlFlow::Break(None));
             }
@@ -192,6 +191,10 @@ impl<'l> Program<'l> {
             HintMask | CntrMask => {
                 self.stems += self.stack.len() >> 1;
                 let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;
+                if self.stack.len() & 1 == 1 && self.width.is_none() {
+                    self.width = Some(self.stack[0]);
+                }
+                self.stack.clear();
                 clear!([equal(0)]);
             }
 
-- 
2.43.0


From 748fe7208c777b5ea299c3fd60623e6606f2e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 11/15] fix: end a program at the end operator for good

A program with bytes after its end operator continued to execute them when
stepped again.
---
 src/type2/program.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index af0f262..ca6b063 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -180,6 +180,8 @@ impl<'l> Program<'l> {
                 if matches!(self.stack.len(), 1 | 5) && self.width.is_none() {
                     self.width = Some(self.stack[0]);
                 }
+                let size = self.routine.size as u64;
+                self.routine.set_position(size);
                 return Ok(ControlFlow::Break(None));
             }
 
-- 
2.43.0


From e14f95f4c4e189fbd5e6e94271385c39da28c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 12/15] fix: limit the operators of a step

---
 src/type2/program.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index ca6b063..e271189 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -8,6 +8,9 @@ use crate::Result;
 /// The maximum depth of nested subroutines.
 const MAX_SUBROUTINE_DEPTH: usize = 10;
 
+/// The maximum number of operators between two operations.
+const MAX_OPERATOR_COUNT: usize = 1 << 20;
+
 /// A program.
 pub struct Program<'l> {
     routine: Routine<'l>,
@@ -42,11 +45,12 @@ impl<'l> Program<'l> {
     /// Return the next operation.
     #[allow(clippy::should_implement_trait)]
     pub fn next(&mut self) -> Result<Option<Operation>> {
-        loop {
+        for _ in 0..MAX_OPERATOR_COUNT {
             if let ControlFlow::Break(operation) = self.execute()? {
                 return Ok(operation);
             }
         }
+        raise!("found too many operators without an operation")
     }
 
     /// Execute the next operator.
-- 
2.43.0


From 231146e48d2f6de6cdd3cc117aee8ccd68a75c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 13/15] fix: limit the operands of a program

---
 src/type2/program.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index e271189..554d05f 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -8,6 +8,9 @@ use crate::Result;
 /// The maximum depth of nested subroutines.
 const MAX_SUBROUTINE_DEPTH: usize = 10;
 
+/// The maximum number of operands on the stack.
+const MAX_OPERAND_COUNT: usize = 1 << 16;
+
 /// The maximum number of operators between two operations.
 const MAX_OPERATOR_COUNT: usize = 1 << 20;
 
@@ -83,6 +86,9 @@ impl<'l> Program<'l> {
             });
             ($operand:expr) => ({
                 let operand = $operand;
+                if self.stack.len() >= MAX_OPERAND_COUNT {
+                    raise!("found too many operands");
+                }
                 self.stack.push(operand);
             });
         );
-- 
2.43.0


From 007504fe4fad4e92385d25852f7df4daa0fb0626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 14/15] fix: reject unknown formats when mappings in format 0
 are read

---
 src/compact1/font_set/character_id_keyed.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 4082841..37b6ca6 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -146,7 +146,9 @@ impl<'l> crate::walue::Read<'l> for Encoding0 {
         character_strings: Self::Parameter,
     ) -> Result<Self> {
         let format = tape.take()?;
-        debug_assert_eq!(format, 0);
+        if format != 0 {
+            raise!("found an unknown format of the glyph-to-dictionary encoding ({format})")
+        }
         Ok(Self {
             format,
             dictionary_ids: tape.take_given(character_strings.count as usize)?,
-- 
2.43.0


From 0bc2127fc9b562ad2d994b391dfac24eed179bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 15/15] fix: do not reserve room for a mask that is not there

---
 src/type2/program.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 554d05f..a114a21 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -1,4 +1,4 @@
-use std::io::Cursor;
+use std::io::{Cursor, ErrorKind};
 use std::ops::ControlFlow;
 
 use crate::tape::Read;
@@ -202,7 +202,7 @@ impl<'l> Program<'l> {
             }
             HintMask | CntrMask => {
                 self.stems += self.stack.len() >> 1;
-                let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;
+                self.routine.skip((self.stems + 7) >> 3)?;
                 if self.stack.len() & 1 == 1 && self.width.is_none() {
                     self.width = Some(self.stack[0]);
                 }
@@ -333,6 +333,16 @@ impl<'l> Routine<'l> {
         Ok(Read::position(&mut self.tape)? == self.size as u64)
     }
 
+    #[inline]
+    fn skip(&mut self, count: usize) -> Result<()> {
+        let position = Read::position(&mut self.tape)?;
+        if count as u64 > self.size as u64 - position {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
+        self.tape.set_position(position + count as u64);
+        Ok(())
+    }
+
     #[inline]
     fn take_operand(&mut self) -> Result<Operand> {
         number::read(&mut self.tape)
-- 
2.43.0

