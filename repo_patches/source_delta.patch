From baff1676842659a7a385ac8cb8ea6dc704d7649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 01/12] fix: write the field id, not the delta, in long form
 field headers

---
 runtime/src/protocol.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 9eaaeb5..2f30273 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -258,13 +258,16 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
 
 #[inline]
 pub(crate) fn write_field_header<T: CompactThriftOutput>(output: &mut T, field_type: u8, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
-    let field_delta = field_id.wrapping_sub(*last_field_id);
-
-    if field_delta > 15 {
-        output.write_byte(field_type)?;
-        output.write_i16(field_delta)?
-    } else {
-        output.write_byte(field_type | ((field_delta as u8) << 4))?;
+    match field_id.checked_sub(*last_field_id) {
+        // short form: id as the delta to the previous id
+        Some(field_delta @ 1..=15) => {
+            output.write_byte(field_type | ((field_delta as u8) << 4))?;
+        }
+        // long form: the id itself
+        _ => {
+            output.write_byte(field_type)?;
+            output.write_i16(field_id)?;
+        }
     }
     *last_field_id = field_id;
     Ok(())
-- 
2.43.0


From 5e832c9013c3f552748c1ff9cad9b2ca823d53dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 02/12] fix: return an error instead of panicking when skipping
 a truncated integer

---
 runtime/src/protocol.rs | 2 +-
 runtime/src/uleb.rs     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 2f30273..ac8dac4 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -367,7 +367,7 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
             self.0 = unsafe { skip_uleb_sse2(self.0) };
             Ok(())
         } else {
-            self.0 = skip_uleb_fallback(self.0);
+            self.0 = skip_uleb_fallback(self.0)?;
             Ok(())
         }
     }
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index d06211d..2aa82ec 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -1,3 +1,5 @@
+use std::io::ErrorKind;
+
 use crate::CompactThriftInput;
 use crate::CompactThriftOutput;
 use crate::ThriftError;
@@ -31,12 +33,12 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
 }
 
 #[inline(never)]
-pub(crate) fn skip_uleb_fallback(input: &[u8]) -> &[u8] {
+pub(crate) fn skip_uleb_fallback(input: &[u8]) -> Result<&[u8], ThriftError> {
     let mut i = 0_usize;
     while i < input.len() && (input[i] & 0x80) != 0 {
         i += 1;
     }
-    &input[i+1..]
+    input.get(i+1..).ok_or(ThriftError::IO(ErrorKind::UnexpectedEof))
 }
 
 pub(crate) fn encode_uleb<O: CompactThriftOutput + ?Sized>(output: &mut O, mut value: u64) -> Result<(), ThriftError> {
-- 
2.43.0


From fa90feb7e84a0a45d920d6d0219eac81badb7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 03/12] fix: do not skip past an integer longer than 16 bytes

---
 runtime/src/protocol.rs | 12 +++++++-----
 runtime/src/uleb.rs     |  7 ++++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index ac8dac4..c923f0d 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -364,12 +364,14 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
     #[cfg(target_feature = "sse2")]
     fn skip_integer(&mut self) -> Result<(), ThriftError> {
         if self.0.len() >= 16 {
-            self.0 = unsafe { skip_uleb_sse2(self.0) };
-            Ok(())
-        } else {
-            self.0 = skip_uleb_fallback(self.0)?;
-            Ok(())
+            let rest = unsafe { skip_uleb_sse2(self.0) };
+            if rest.len() < self.0.len() {
+                self.0 = rest;
+                return Ok(());
+            }
         }
+        self.0 = skip_uleb_fallback(self.0)?;
+        Ok(())
     }
 
     fn skip_binary(&mut self) -> Result<(), ThriftError> {
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index 2aa82ec..0d24382 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -20,6 +20,8 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
     }
 }
 
+/// Returns `input` unchanged if none of the first 16 bytes terminates the integer.
+///
 /// Safety: `input` needs to contain at least 16 bytes
 #[cfg(target_feature = "sse2")]
 #[inline]
@@ -27,7 +29,10 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
     use std::arch::x86_64::*;
     debug_assert!(input.len() >= 16);
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
-    let mask = !_mm_movemask_epi8(chunk);
+    let mask = !_mm_movemask_epi8(chunk) & 0xFFFF;
+    if mask == 0 {
+        return input;
+    }
     let len = (mask << 1).trailing_zeros() as usize;
     input.get_unchecked(len..)
 }
-- 
2.43.0


From 51f79e521f22c25fa8dfb90e65da5276020d3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 04/12] fix: reject field ids that overflow instead of
 panicking

---
 runtime/src/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index c923f0d..0b9856b 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -101,7 +101,7 @@ pub trait CompactThriftInput<'i> {
         let field_type = field_header & 0x0F;
         let field_delta = field_header >> 4;
         if field_delta != 0 {
-            *last_field_id += field_delta as i16;
+            *last_field_id = last_field_id.checked_add(field_delta as i16).ok_or(ThriftError::InvalidNumber)?;
         } else {
             *last_field_id = read_full_field_id(self)?;
         }
-- 
2.43.0


From 5700fb2102a25cb404c67d8ec7b9c73a33855fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 05/12] fix: reject bool fields with a non-bool wire type

---
 runtime/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 76c05ac..8a488e2 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -33,7 +33,11 @@ impl <'i> CompactThriftProtocol<'i> for bool {
 
     #[inline]
     fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, _input: &mut T, field_type: u8) -> Result<(), ThriftError> {
-        *self = field_type == 1;
+        *self = match field_type {
+            1 => true,
+            2 => false,
+            _ => return Err(ThriftError::InvalidType),
+        };
         Ok(())
     }
 
-- 
2.43.0


From c40a2c64d19c62ef60b2a18d1de20de5b79de993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 06/12] fix: check the wire type of union variants

---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 7dce2bd..c5c918b 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -158,7 +158,7 @@ macro_rules! thrift_union {
                         *self = Self::$field_name(Default::default());
                         #[allow(unreachable_patterns)]
                         match self {
-                            Self::$field_name(inner) => inner.fill_thrift(input)?,
+                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,
                             _ => unsafe { std::hint::unreachable_unchecked() },
                         }
                     }),*
-- 
2.43.0


From 861f90d74bdfc9a6b990d0b19f8f9c50b4a1cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 07/12] fix: name the union in the error for an unknown variant

---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index c5c918b..f101ec5 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -163,7 +163,7 @@ macro_rules! thrift_union {
                         }
                     }),*
                     _ => {
-                        return Err($crate::ThriftError::MissingField(concat!(stringify!($struct_name), "\0").into()))
+                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\0").into()))
                     }
                 }
                 let stop = input.read_byte()?;
-- 
2.43.0


From 9be86140f3099be5d7a6b100adf26a86a54120bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 08/12] fix: Box, Rc and Arc keep the field encoding of the
 wrapped type

---
 runtime/src/types.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 8a488e2..4b8a9b6 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -292,10 +292,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Box::as_mut(self).fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Box::as_mut(self).fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Box::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Box::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Rc<P> {
@@ -306,10 +316,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Rc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Arc<P> {
@@ -320,10 +340,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Arc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Arc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i> CompactThriftProtocol<'i> for Box<str> {
-- 
2.43.0


From 79dc069e7f06a983e3105e8bc77cd44211f2c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 09/12] fix: return an error for page indexes outside of the
 chunk

---
 parquet/src/lib.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index c90ee50..315713c 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -103,21 +103,19 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     }
 }
 
+/// The part of `chunk`, which starts at `chunk_offset` in the file, that contains the index at `offset`.
+fn index_chunk(chunk: &[u8], chunk_offset: usize, offset: i64, length: i32) -> Result<&[u8], ParquetError> {
+    let offset = usize::try_from(offset).map_err(|_| ParquetError::InvalidOffset)?;
+    let length = usize::try_from(length).map_err(|_| ParquetError::InvalidOffset)?;
+    let start = offset.checked_sub(chunk_offset).ok_or(ParquetError::InvalidOffset)?;
+    let end = start.checked_add(length).ok_or(ParquetError::InvalidOffset)?;
+    chunk.get(start..end).ok_or(ParquetError::InvalidOffset)
+}
+
 fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
     column_chunks.iter().map(|cc| {
-        let offset_index_range = if let (Some(offset), Some(length)) = (cc.offset_index_offset, cc.offset_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
-            return Ok(None)
-        };
-        let column_index_range = if let (Some(offset), Some(length)) = (cc.column_index_offset, cc.column_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
+        let (offset_index_chunk, column_index_chunk) = if let (Some(oo), Some(ol), Some(co), Some(cl)) = (cc.offset_index_offset, cc.offset_index_length, cc.column_index_offset, cc.column_index_length) {
+            (index_chunk(chunk, chunk_offset, oo, ol)?, index_chunk(chunk, chunk_offset, co, cl)?)
         } else {
             return Ok(None)
         };
@@ -126,8 +124,8 @@ fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_ch
 
         match &mut res {
             Ok(Some((offset_index, column_index))) => {
-                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[offset_index_range]))?;
-                column_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[column_index_range]))?;
+                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_chunk))?;
+                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_chunk))?;
             }
             _ => unsafe { unreachable_unchecked() }
         }
-- 
2.43.0


From f7e4929063ed6f65f6d6fba6b9cc06d7c38f4b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 10/12] fix: do not abort on page index ranges too large to
 allocate

---
 parquet/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 315713c..9ac7339 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -89,7 +89,9 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     if let Some(range) = get_page_index_range(file_metadata)? {
         input.seek(SeekFrom::Start(range.start as u64))?;
 
-        let mut buf = Vec::with_capacity(range.len());
+        // the range is not backed by any data yet and may be larger than the address space
+        let mut buf = Vec::new();
+        buf.try_reserve_exact(range.len()).map_err(|_| ThriftError::ReserveError)?;
         // Safety: Readers should not look at uninitialized bytes, only write into the slice
         unsafe {
             buf.set_len(range.len());
-- 
2.43.0


From d1a00924a3e80eb2bc9c4dd676a61da4d7c5509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 11/12] fix: repeated fields also add a definition level

---
 parquet/src/bin/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parquet/src/bin/schema.rs b/parquet/src/bin/schema.rs
index cfe36c9..e24f84b 100644
--- a/parquet/src/bin/schema.rs
+++ b/parquet/src/bin/schema.rs
@@ -556,7 +556,7 @@ fn convert_schema_inner<'schema>(
         .repetition_type
         .unwrap_or(FieldRepetitionType::REQUIRED);
     // cannot overflow because nesting level has a lower limit than u8::MAX
-    let def_level = def_level + (repetition_type == FieldRepetitionType::OPTIONAL) as u8;
+    let def_level = def_level + (repetition_type != FieldRepetitionType::REQUIRED) as u8;
     let rep_level = rep_level + (repetition_type == FieldRepetitionType::REPEATED) as u8;
 
     let mut current = field_from_schema_element(
-- 
2.43.0


From c581cde703c1da190fcf187747d3d96e858c4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 12/12] fix: limit the recursion when skipping nested values

---
 runtime/src/protocol.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 0b9856b..ba58908 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -12,6 +12,8 @@ use crate::uleb::*;
 
 pub const MAX_BINARY_LEN: usize = 16*1024*1024;
 pub const MAX_COLLECTION_LEN: usize = 10_000_000;
+/// Limits the recursion when skipping over nested structs, lists and maps.
+const MAX_SKIP_DEPTH: usize = 64;
 
 #[inline(never)] // full field ids are uncommon and inlining this bloats the code
 fn read_full_field_id<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<i16, ThriftError> {
@@ -145,7 +147,8 @@ pub fn read_map_len_and_types<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mu
     Ok((len as u32, key_type, val_type))
 }
 
-fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
+    let depth = depth.checked_sub(1).ok_or(ThriftError::InvalidType)?;
     let (len, element_type) = read_collection_len_and_type(input)?;
     match element_type {
         1..=3 => {
@@ -176,18 +179,18 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
         9 | 10 => {
             // list | set
             for _ in 0..len {
-                skip_collection(input)?;
+                skip_collection(input, depth)?;
             }
         }
         11 => {
             // map
             for _ in 0..len {
-                skip_map(input)?;
+                skip_map(input, depth)?;
             }
         }
         12 => {
             for _ in 0..len {
-                skip_field(input, 12, false)?;
+                skip_nested_field(input, 12, false, depth)?;
             }
         }
         _ => {
@@ -197,16 +200,21 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
     Ok(())
 }
 
-fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
+    let depth = depth.checked_sub(1).ok_or(ThriftError::InvalidType)?;
     let (len, key_type, val_type) = read_map_len_and_types(input)?;
     for _ in 0..len {
-        skip_field(input, key_type, true)?;
-        skip_field(input, val_type, true)?;
+        skip_nested_field(input, key_type, true, depth)?;
+        skip_nested_field(input, val_type, true, depth)?;
     }
     Ok(())
 }
 
 pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
+    skip_nested_field(input, field_type, inside_collection, MAX_SKIP_DEPTH)
+}
+
+fn skip_nested_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool, depth: usize) -> Result<(), ThriftError> {
     match field_type {
         1..=2 => {
             // boolean stored inside the field header outside of collections
@@ -232,21 +240,22 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
         }
         9 | 10 => {
             // list | set
-            skip_collection(input)?;
+            skip_collection(input, depth)?;
         }
         11 => {
             // map
-            skip_map(input)?;
+            skip_map(input, depth)?;
         }
         12 => {
             // struct | union
+            let depth = depth.checked_sub(1).ok_or(ThriftError::InvalidType)?;
             let mut last_field_id = 0_i16;
             loop {
                 let field_type = input.read_field_header(&mut last_field_id)?;
                 if field_type == 0 {
                     break;
                 }
-                skip_field(input, field_type, false)?;
+                skip_nested_field(input, field_type, false, depth)?;
             }
         }
         _ => {
-- 
2.43.0

