From cd079dff73e7ca527e5937c4d6de06de6ef93a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 001/129] fix: read_exact of a data stream must not fail on a
 short read

---
 keramics-core/src/data_stream.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/keramics-core/src/data_stream.rs b/keramics-core/src/data_stream.rs
index c8c4cda..4947e70 100644
--- a/keramics-core/src/data_stream.rs
+++ b/keramics-core/src/data_stream.rs
@@ -37,10 +37,16 @@ pub trait DataStream: Send + Sync {
     #[inline(always)]
     fn read_exact(&mut self, buf: &mut [u8]) -> Result<(), ErrorTrace> {
         let read_size: usize = buf.len();
-        let read_count: usize = self.read(buf)?;
+        let mut buf_offset: usize = 0;
 
-        if read_count != read_size {
-            return Err(crate::error_trace_new!("Unable to read the exact amount"));
+        // Note that a read can return less data than requested before the end of the data.
+        while buf_offset < read_size {
+            let read_count: usize = self.read(&mut buf[buf_offset..])?;
+
+            if read_count == 0 {
+                return Err(crate::error_trace_new!("Unable to read the exact amount"));
+            }
+            buf_offset += read_count;
         }
         Ok(())
     }
@@ -49,12 +55,7 @@ pub trait DataStream: Send + Sync {
     #[inline(always)]
     fn read_exact_at_position(&mut self, buf: &mut [u8], pos: SeekFrom) -> Result<u64, ErrorTrace> {
         let offset: u64 = self.seek(pos)?;
-        let read_size: usize = buf.len();
-        let read_count: usize = self.read(buf)?;
-
-        if read_count != read_size {
-            return Err(crate::error_trace_new!("Unable to read the exact amount"));
-        }
+        self.read_exact(buf)?;
         Ok(offset)
     }
 
-- 
2.43.0


From e726d76168d1479b7e0663cfc544c97a1e6e9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 002/129] fix: retry an interrupted read of an operating system
 data stream

---
 keramics-core/src/os_data_stream.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/keramics-core/src/os_data_stream.rs b/keramics-core/src/os_data_stream.rs
index 3663908..7510dbe 100644
--- a/keramics-core/src/os_data_stream.rs
+++ b/keramics-core/src/os_data_stream.rs
@@ -12,7 +12,7 @@
  */
 
 use std::fs::{File, Metadata};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, Seek, SeekFrom};
 use std::path::PathBuf;
 use std::sync::{Arc, RwLock};
 
@@ -37,13 +37,19 @@ impl DataStream for File {
 
     /// Reads data at the current position.
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
-        match Read::read(self, buf) {
-            Ok(read_count) => Ok(read_count),
-            Err(error) => Err(ErrorTrace::new(format!(
-                "{}: Unable to read data with error: {}",
-                crate::error_trace_function!(),
-                error.to_string(),
-            ))),
+        loop {
+            match Read::read(self, buf) {
+                Ok(read_count) => return Ok(read_count),
+                // Note that an interrupted read has not read any data and can be retried.
+                Err(error) if error.kind() == ErrorKind::Interrupted => continue,
+                Err(error) => {
+                    return Err(ErrorTrace::new(format!(
+                        "{}: Unable to read data with error: {}",
+                        crate::error_trace_function!(),
+                        error.to_string(),
+                    )));
+                }
+            }
         }
     }
 
-- 
2.43.0


From 03958dbbc5f190092ad8a08297ec54aca66804e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 003/129] fix: fake data stream read across the end of the
 stored data

---
 keramics-core/src/fake_data_stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 3d11ec6..35938a2 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -67,8 +67,10 @@ impl DataStream for FakeDataStream {
         while buf_offset < read_size {
             let read_remainder_size: usize = read_size - buf_offset;
 
-            let read_count: usize = if self.current_offset < self.data_size as u64 {
-                let data_offset: usize = self.current_offset as usize;
+            let read_offset: u64 = self.current_offset + buf_offset as u64;
+
+            let read_count: usize = if read_offset < self.data_size as u64 {
+                let data_offset: usize = read_offset as usize;
 
                 let data_remainder_size: usize =
                     min(read_remainder_size, self.data_size - data_offset);
-- 
2.43.0


From 687831817e744a90d9a4187cc2f45e3405be393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 004/129] fix: hashing from a reader must retry an interrupted
 read

---
 keramics-tools/src/hasher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-tools/src/hasher.rs b/keramics-tools/src/hasher.rs
index 64a9cad..1c71623 100644
--- a/keramics-tools/src/hasher.rs
+++ b/keramics-tools/src/hasher.rs
@@ -11,7 +11,7 @@
  * under the License.
  */
 
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 
 use keramics_core::ErrorTrace;
 use keramics_core::formatters::format_as_string;
@@ -51,6 +51,7 @@ impl DigestHasher {
         loop {
             let read_count = match reader.read(&mut data) {
                 Ok(read_count) => read_count,
+                Err(error) if error.kind() == ErrorKind::Interrupted => continue,
                 Err(error) => {
                     return Err(keramics_core::error_trace_new_with_error!(
                         "Unable to read from reader",
-- 
2.43.0


From 41997529561defee4779a090b21e41b48fd43a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 005/129] fix: exporting a data stream must continue after a
 short write

---
 keramics-tools/src/writer.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/keramics-tools/src/writer.rs b/keramics-tools/src/writer.rs
index 208cc81..fc04e06 100644
--- a/keramics-tools/src/writer.rs
+++ b/keramics-tools/src/writer.rs
@@ -73,8 +73,8 @@ impl<'a> DataStreamWriter<'a> {
                     if read_count == 0 {
                         break;
                     }
-                    let write_count: usize = match output_file.write(&data[..read_count]) {
-                        Ok(write_count) => write_count,
+                    match output_file.write_all(&data[..read_count]) {
+                        Ok(_) => {}
                         Err(error) => {
                             return Err(keramics_core::error_trace_new_with_error!(
                                 "Unable to write to output file",
@@ -82,11 +82,6 @@ impl<'a> DataStreamWriter<'a> {
                             ));
                         }
                     };
-                    if write_count != read_count {
-                        return Err(keramics_core::error_trace_new!(
-                            "Unable to write all data to output file"
-                        ));
-                    }
                 }
                 self.number_of_streams_written += 1;
             }
-- 
2.43.0


From d1c681a842a94337932c698d17d79f28faed1b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 006/129] fix: smallest pattern offset of a signature table
 without a pattern at offset 0

---
 keramics-sigscan/src/signature_table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature_table.rs b/keramics-sigscan/src/signature_table.rs
index fdd2275..f546b1c 100644
--- a/keramics-sigscan/src/signature_table.rs
+++ b/keramics-sigscan/src/signature_table.rs
@@ -384,7 +384,11 @@ impl SignatureTable {
         match self.byte_value_groups.get_mut(&pattern_offset) {
             Some(byte_value_group) => byte_value_group.insert_signature(byte_value, signature),
             None => {
-                self.smallest_pattern_offset = min(pattern_offset, self.smallest_pattern_offset);
+                self.smallest_pattern_offset = if self.byte_value_groups.is_empty() {
+                    pattern_offset
+                } else {
+                    min(pattern_offset, self.smallest_pattern_offset)
+                };
 
                 let mut byte_value_group: ByteValueGroup = ByteValueGroup::new(pattern_offset);
                 byte_value_group.insert_signature(byte_value, signature);
-- 
2.43.0


From 255c7537e7f71df2701faa82884a576258b265a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 007/129] fix: signatures with the same pattern at different
 offsets are not equivalent

---
 keramics-sigscan/src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 061570d..980776b 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -102,7 +102,9 @@ impl Signature {
 impl PartialEq for Signature {
     /// Determines if the signature is equivalent to another signature.
     fn eq(&self, other: &Signature) -> bool {
-        self.pattern == other.pattern
+        self.pattern_type == other.pattern_type
+            && self.pattern_offset == other.pattern_offset
+            && self.pattern == other.pattern
     }
 }
 
-- 
2.43.0


From fa1bce68e3bdd9bc715badf7501e59766e77255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 008/129] fix: scan for unbound signatures from the root node
 at every offset and report that offset

---
 keramics-sigscan/src/scan_context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index b8ea4fb..571e6f2 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -101,7 +101,7 @@ impl<'a> ScanContext<'a> {
                     let pattern_offset: u64 = match signature.pattern_type {
                         PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
                         PatternType::BoundToStart => signature.pattern_offset as u64,
-                        PatternType::Unbound => self.data_offset,
+                        PatternType::Unbound => self.data_offset + buffer_offset as u64,
                     };
                     self.results.insert(pattern_offset, Arc::clone(&signature));
 
@@ -134,6 +134,7 @@ impl<'a> ScanContext<'a> {
                 break;
             }
             buffer_offset += skip_value;
+            scan_tree_node = &scan_tree.root_node;
         }
     }
 
-- 
2.43.0


From 23c4d9ca0c93dac2ea43ae8e86350ac33f5dbb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 009/129] fix: skip value offset underflow when scanning a
 single byte

---
 keramics-sigscan/src/scan_context.rs | 29 ++++++++++++----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 571e6f2..6b3e434 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -110,23 +110,18 @@ impl<'a> ScanContext<'a> {
                 _ => {
                     let smallest_pattern_size: usize =
                         min(buffer_size, scan_tree.skip_table.smallest_pattern_size);
-                    let mut skip_value_offset: usize =
-                        min(buffer_offset + smallest_pattern_size - 1, buffer_end_offset);
-
-                    loop {
-                        let byte_value: u8 = buffer[skip_value_offset];
-                        skip_value = scan_tree.skip_table.get_skip_value(&byte_value);
-                        if skip_value == 0 {
-                            skip_value = match scan_tree.pattern_type {
-                                PatternType::Unbound => scan_tree.skip_table.smallest_skip_value,
-                                _ => scan_tree.skip_table.smallest_pattern_size,
-                            };
-                        }
-                        skip_value_offset -= 1;
-
-                        if skip_value_offset <= buffer_offset || skip_value != 0 {
-                            break;
-                        }
+                    let skip_value_offset: usize = min(
+                        (buffer_offset + smallest_pattern_size).saturating_sub(1),
+                        buffer_end_offset,
+                    );
+                    let byte_value: u8 = buffer[skip_value_offset];
+                    skip_value = scan_tree.skip_table.get_skip_value(&byte_value);
+
+                    if skip_value == 0 {
+                        skip_value = match scan_tree.pattern_type {
+                            PatternType::Unbound => scan_tree.skip_table.smallest_skip_value,
+                            _ => scan_tree.skip_table.smallest_pattern_size,
+                        };
                     }
                 }
             };
-- 
2.43.0


From 923f6fd47bb2051f4520ce86e570b8e647b38268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 010/129] fix: signature bound to end that exceeds the data
 size does not match

---
 keramics-sigscan/src/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 980776b..ebf9c48 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -64,7 +64,10 @@ impl Signature {
         buffer_size: usize,
     ) -> bool {
         let pattern_offset: u64 = match self.pattern_type {
-            PatternType::BoundToEnd => data_size - self.pattern_offset as u64,
+            PatternType::BoundToEnd => match data_size.checked_sub(self.pattern_offset as u64) {
+                Some(pattern_offset) => pattern_offset,
+                None => return false,
+            },
             PatternType::BoundToStart => self.pattern_offset as u64,
             PatternType::Unbound => data_offset,
         };
-- 
2.43.0


From a8f4c1d775e3ac72991dd674544949841c1cd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 011/129] fix: scan the footer range relative to its start when
 the data is smaller or split

---
 keramics-sigscan/src/scan_context.rs | 32 +++++++++++-----------------
 keramics-sigscan/src/scan_tree.rs    | 24 +++++++++++++++------
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 6b3e434..ceb7832 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -11,7 +11,7 @@
  * under the License.
  */
 
-use std::cmp::min;
+use std::cmp::{max, min};
 use std::collections::HashMap;
 use std::sync::Arc;
 
@@ -76,14 +76,14 @@ impl<'a> ScanContext<'a> {
         &mut self,
         scan_tree: &'a ScanTree,
         buffer: &[u8],
-        mut buffer_offset: usize,
+        mut buffer_offset: isize,
         buffer_size: usize,
     ) {
         let buffer_end_offset: usize = buffer_size - 1;
         let mut skip_value: usize;
         let mut scan_tree_node: &ScanTreeNode = &scan_tree.root_node;
 
-        while buffer_offset < buffer_size {
+        while buffer_offset < buffer_size as isize {
             let scan_result: ScanResult = scan_tree_node.scan_buffer(
                 self.data_offset,
                 self.data_size,
@@ -111,7 +111,7 @@ impl<'a> ScanContext<'a> {
                     let smallest_pattern_size: usize =
                         min(buffer_size, scan_tree.skip_table.smallest_pattern_size);
                     let skip_value_offset: usize = min(
-                        (buffer_offset + smallest_pattern_size).saturating_sub(1),
+                        (max(buffer_offset, 0) as usize + smallest_pattern_size).saturating_sub(1),
                         buffer_end_offset,
                     );
                     let byte_value: u8 = buffer[skip_value_offset];
@@ -128,7 +128,7 @@ impl<'a> ScanContext<'a> {
             if scan_tree.pattern_type != PatternType::Unbound {
                 break;
             }
-            buffer_offset += skip_value;
+            buffer_offset += skip_value as isize;
             scan_tree_node = &scan_tree.root_node;
         }
     }
@@ -144,23 +144,17 @@ impl<'a> ScanContext<'a> {
         }
         let next_data_offset: u64 = self.data_offset + buffer_size as u64;
 
-        let footer_start_offset: u64 = if self.footer_range_size <= self.data_size {
-            self.data_size - self.footer_range_size
-        } else {
-            0
-        };
-        if next_data_offset >= footer_start_offset {
-            let remaining_data_size: usize = (next_data_offset - footer_start_offset) as usize;
-
-            let buffer_start_offset: usize = if remaining_data_size < buffer_size {
-                buffer_size - remaining_data_size
-            } else {
-                0
-            };
+        // Note that the footer range can be larger than the data, in which case it starts before
+        // the data.
+        let footer_start_offset: i64 = self.data_size as i64 - self.footer_range_size as i64;
+
+        if next_data_offset as i64 >= footer_start_offset {
+            let buffer_start_offset: i64 = footer_start_offset - self.data_offset as i64;
+
             self.scan_buffer_with_scan_tree(
                 &self.scanner.footer_scan_tree,
                 buffer,
-                buffer_start_offset,
+                buffer_start_offset as isize,
                 buffer_size,
             );
         }
diff --git a/keramics-sigscan/src/scan_tree.rs b/keramics-sigscan/src/scan_tree.rs
index bebe11c..20f07e0 100644
--- a/keramics-sigscan/src/scan_tree.rs
+++ b/keramics-sigscan/src/scan_tree.rs
@@ -164,7 +164,7 @@ impl ScanTreeNode {
         data_offset: u64,
         data_size: u64,
         buffer: &[u8],
-        buffer_offset: usize,
+        buffer_offset: isize,
         buffer_size: usize,
     ) -> ScanResult<'_> {
         if data_offset >= data_size {
@@ -172,15 +172,19 @@ impl ScanTreeNode {
         }
         let mediator: MediatorReference = Mediator::current();
 
-        let scan_offset: usize = buffer_offset + self.pattern_offset;
+        // Note that the scan range can start before the buffer.
+        let scan_offset: isize = buffer_offset + self.pattern_offset as isize;
 
         let mut scan_object_key: i16 = DEFAULT_SCAN_OBJECT;
 
         // Note that if the pattern offset exceeds the (total) data size the scan continues with the default scan object.
         let mut scan_object: Option<&ScanObject> = None;
 
-        if scan_offset < buffer_size && (scan_offset as u64) < data_size - data_offset {
-            scan_object_key = buffer[scan_offset] as i16;
+        if scan_offset >= 0
+            && (scan_offset as usize) < buffer_size
+            && (scan_offset as u64) < data_size - data_offset
+        {
+            scan_object_key = buffer[scan_offset as usize] as i16;
             scan_object = self.scan_objects.get(&scan_object_key);
         }
         if scan_object.is_none() {
@@ -189,7 +193,7 @@ impl ScanTreeNode {
         }
         if mediator.debug_output {
             mediator.debug_print(format!("ScanTreeNode::scan_buffer {{\n"));
-            let pattern_offset: u64 = data_offset + scan_offset as u64;
+            let pattern_offset: i64 = data_offset as i64 + scan_offset as i64;
             mediator.debug_print(format!(
                 "    scanning at offset: {} (0x{:08x}) for scan object: ",
                 pattern_offset, pattern_offset
@@ -207,7 +211,13 @@ impl ScanTreeNode {
             mediator.debug_print(format!("}}\n\n"));
         }
         if let Some(ScanObject::Signature(signature)) = scan_object {
-            if signature.scan_buffer(data_offset, data_size, buffer, buffer_offset, buffer_size) {
+            if signature.scan_buffer(
+                data_offset,
+                data_size,
+                buffer,
+                max(buffer_offset, 0) as usize,
+                buffer_size,
+            ) {
                 return ScanResult::Signature(Arc::clone(signature));
             } else if scan_object_key == DEFAULT_SCAN_OBJECT {
                 return ScanResult::None;
@@ -224,7 +234,7 @@ impl ScanTreeNode {
                         data_offset,
                         data_size,
                         buffer,
-                        buffer_offset,
+                        max(buffer_offset, 0) as usize,
                         buffer_size,
                     ) {
                         ScanResult::Signature(Arc::clone(signature))
-- 
2.43.0


From ca2c4dc79e4e5c22f5cc289786bdd17475ed9f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 012/129] fix: building a scan tree of signatures that all
 match the same bytes

---
 keramics-sigscan/src/scan_tree.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/keramics-sigscan/src/scan_tree.rs b/keramics-sigscan/src/scan_tree.rs
index 20f07e0..52ada10 100644
--- a/keramics-sigscan/src/scan_tree.rs
+++ b/keramics-sigscan/src/scan_tree.rs
@@ -62,9 +62,25 @@ impl ScanTreeNode {
         self.pattern_offset = match signature_table.get_most_significant_pattern_offset() {
             Some(pattern_offset) => pattern_offset,
             None => {
-                return Err(BuildError::new(format!(
-                    "Unable to determine most significant pattern offset"
-                )));
+                // Without a remaining pattern offset the bytes of all signatures have been matched,
+                // in which case the signature with the largest pattern is the most specific.
+                match signature_table.signatures.iter().max_by(|first, second| {
+                    (first.pattern_size, &first.identifier)
+                        .cmp(&(second.pattern_size, &second.identifier))
+                }) {
+                    Some(signature) => {
+                        self.scan_objects.insert(
+                            DEFAULT_SCAN_OBJECT,
+                            ScanObject::Signature(Arc::clone(signature)),
+                        );
+                        return Ok(());
+                    }
+                    None => {
+                        return Err(BuildError::new(format!(
+                            "Unable to determine most significant pattern offset"
+                        )));
+                    }
+                }
             }
         };
         let signatures_in_node: Vec<SignatureReference> =
-- 
2.43.0


From 2e01acf22c6de65a46b89b9f0e766f42693bab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 013/129] fix: debug formatting of an array of which the size
 is 0 or not a multiple of 16

---
 keramics-core/src/formatters.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 44ca025..d957328 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -15,6 +15,9 @@
 pub fn debug_format_array(array: &Vec<String>) -> String {
     // TODO: pass string for indentation?
     let number_of_values: usize = array.len();
+    if number_of_values == 0 {
+        return String::from("[]");
+    }
     let string_value: &String = &array[0];
     let mut use_short_hand: bool = true;
 
@@ -29,11 +32,9 @@ pub fn debug_format_array(array: &Vec<String>) -> String {
     }
     if number_of_values > 16 {
         let mut string_parts: Vec<String> = Vec::new();
-        let last_value_index: usize = number_of_values - 16;
-        for value_index in (0..last_value_index).step_by(16) {
-            string_parts.push(array[value_index..value_index + 16].join(", "));
+        for values in array.chunks(16) {
+            string_parts.push(values.join(", "));
         }
-        string_parts.push(array[last_value_index..].join(", "));
 
         return format!("[\n        {}\n    ]", string_parts.join(",\n        "));
     }
-- 
2.43.0


From 36b78725b76d04aceade540535afc411f885da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 014/129] fix: number of elements of a field in a layout map
 group was ignored

---
 keramics-layout-map/src/macros.rs    | 11 ++++++++++-
 keramics-layout-map/src/structure.rs | 20 ++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/keramics-layout-map/src/macros.rs b/keramics-layout-map/src/macros.rs
index 380c6e1..31675de 100644
--- a/keramics-layout-map/src/macros.rs
+++ b/keramics-layout-map/src/macros.rs
@@ -559,8 +559,17 @@ fn parse_structure_layout_group(
     let mut group: StructureLayoutGroup = StructureLayoutGroup::new(&condition);
 
     for field_options in group_options.fields.iter() {
-        let field: StructureLayoutField = parse_structure_layout_field(&name, field_options)?;
+        let mut field: StructureLayoutField = parse_structure_layout_field(&name, field_options)?;
 
+        match field_options.parse_data_type() {
+            Ok((_, number_of_elements)) => field.number_of_elements = number_of_elements,
+            Err(error) => {
+                return Err(ParseError::new(format!(
+                    "{} in field: {}",
+                    error, field_options.name
+                )));
+            }
+        };
         group.fields.push(field);
     }
     Ok(group)
diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 5e10d77..42b8824 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -179,6 +179,9 @@ pub(crate) struct StructureLayoutField {
 
     /// Format.
     pub format: Format,
+
+    /// Number of elements.
+    pub number_of_elements: usize,
 }
 
 impl StructureLayoutField {
@@ -196,6 +199,7 @@ impl StructureLayoutField {
             byte_order: byte_order,
             modifier: modifier.clone(),
             format: format,
+            number_of_elements: 1,
         }
     }
 
@@ -561,7 +565,7 @@ impl StructureLayoutGroup {
                 Some(byte_size) => byte_size,
                 None => panic!("Unable to determine byte size of field: {}", field.name),
             };
-            data_size += byte_size;
+            data_size += byte_size * field.number_of_elements;
         }
         data_size
     }
@@ -706,11 +710,19 @@ impl StructureLayout {
                 Some(byte_size) => byte_size,
                 None => panic!("Unable to determine byte size of field: {}", field.name),
             };
-            let debug_read_field: TokenStream =
-                field.get_debug_read(&byte_order, value_data_size, data_offset);
+            let debug_read_field: TokenStream = if field.number_of_elements == 1 {
+                field.get_debug_read(&byte_order, value_data_size, data_offset)
+            } else {
+                field.get_debug_read_sequence(
+                    &byte_order,
+                    data_offset,
+                    value_data_size,
+                    field.number_of_elements,
+                )
+            };
             debug_read_fields.extend(debug_read_field);
 
-            data_offset += value_data_size;
+            data_offset += value_data_size * field.number_of_elements;
         }
         let group_condition: TokenStream = group.get_condition_token_stream();
         quote! {
-- 
2.43.0


From 1734928df61bdbbd97921be0d30dd125e9e74c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 015/129] fix: layout map of a signed 8-bit field did not
 compile

---
 keramics-layout-map/src/structure.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 42b8824..e9be16a 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -409,9 +409,8 @@ impl StructureLayoutField {
                 }
                 _ => panic!("Unsupported byte order"),
             },
-            DataType::SignedInteger8Bit | DataType::UnsignedInteger8Bit => {
-                quote!(data[#data_offset])
-            }
+            DataType::SignedInteger8Bit => quote!((data[#data_offset] as i8)),
+            DataType::UnsignedInteger8Bit => quote!(data[#data_offset]),
             DataType::SignedInteger16Bit => match byte_order {
                 &ByteOrder::BigEndian => {
                     quote!(keramics_types::bytes_to_i16_be!(data, #data_offset))
-- 
2.43.0


From 14432dc817e65d485cfdce809a7faf24eddf18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 016/129] fix: date values of a timestamp in or after the year
 10000

---
 keramics-datetime/src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 7aeb6a5..8485c6a 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -59,7 +59,7 @@ const DAYS_IN_YEAR: [i16; 10000] = calculate_days_in_year_lookup_table();
 /// Retrieves the number of days in a specific year.
 #[inline(always)]
 fn get_days_in_year(year: i16) -> i16 {
-    if year >= 0 && year <= 10000 {
+    if year >= 0 && year < 10000 {
         DAYS_IN_YEAR[year as usize]
     } else if is_leap_year(year) {
         366
@@ -91,7 +91,7 @@ const DAYS_IN_CENTURY: [i32; 100] = calculate_days_in_century_lookup_table();
 /// Retrieves the number of days in a specific century.
 #[inline(always)]
 fn get_days_in_century(year: i16) -> i32 {
-    if year >= 0 && year <= 10000 {
+    if year >= 0 && year < 10000 {
         DAYS_IN_CENTURY[(year / 100) as usize]
     } else if is_leap_year(year) {
         36525
-- 
2.43.0


From 86d4e38c9dc2f47063abbff6da058672b1fe7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 017/129] fix: reading a sparse image after a short read within
 a band

---
 keramics-formats/src/sparseimage/file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/sparseimage/file.rs b/keramics-formats/src/sparseimage/file.rs
index 5a23feb..158e96d 100644
--- a/keramics-formats/src/sparseimage/file.rs
+++ b/keramics-formats/src/sparseimage/file.rs
@@ -244,8 +244,10 @@ impl SparseImageFile {
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
 
-            range_relative_offset = 0;
-            range_remainder_size = self.block_size as u64;
+
+            // Note that a read can return less data than requested.
+            range_relative_offset = media_offset % (self.block_size as u64);
+            range_remainder_size = (self.block_size as u64) - range_relative_offset;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From 66b7389b6fb6e999c1b03bb0d9e90573db6e93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 018/129] fix: reading a sparse bundle Info.plist after a short
 read

---
 keramics-formats/src/sparsebundle/image.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/sparsebundle/image.rs b/keramics-formats/src/sparsebundle/image.rs
index 107ab14..6d68b81 100644
--- a/keramics-formats/src/sparsebundle/image.rs
+++ b/keramics-formats/src/sparsebundle/image.rs
@@ -101,7 +101,11 @@ impl SparseBundleImage {
         }
         let mut data: Vec<u8> = vec![0; data_stream_size as usize];
 
-        keramics_core::data_stream_read_at_position!(data_stream, &mut data, SeekFrom::Start(0));
+        keramics_core::data_stream_read_exact_at_position!(
+            data_stream,
+            &mut data,
+            SeekFrom::Start(0)
+        );
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "Info.plist data of size: {} at offset: 0 (0x00000000)\n",
-- 
2.43.0


From 476af48eeb303f5e02dabb400c4e9ebfb02ef9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 019/129] fix: sparse bundle: missing and partial bands are
 sparse, short reads

---
 keramics-formats/src/os_file_resolver.rs   |  4 +++
 keramics-formats/src/sparsebundle/image.rs | 33 ++++++++++------------
 keramics-formats/src/sparseimage/file.rs   |  1 -
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/keramics-formats/src/os_file_resolver.rs b/keramics-formats/src/os_file_resolver.rs
index 3c0efa2..4629018 100644
--- a/keramics-formats/src/os_file_resolver.rs
+++ b/keramics-formats/src/os_file_resolver.rs
@@ -52,6 +52,10 @@ impl FileResolver for OsFileResolver {
                 }
             }
         }
+        match path_buf.try_exists() {
+            Ok(false) => return Ok(None),
+            _ => {}
+        }
         let data_stream: DataStreamReference = match open_os_data_stream(&path_buf) {
             Ok(data_stream) => data_stream,
             Err(error) => {
diff --git a/keramics-formats/src/sparsebundle/image.rs b/keramics-formats/src/sparsebundle/image.rs
index 6d68b81..8a4fc25 100644
--- a/keramics-formats/src/sparsebundle/image.rs
+++ b/keramics-formats/src/sparsebundle/image.rs
@@ -234,15 +234,6 @@ impl SparseBundleImage {
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such bands file: {}",
-                        band_file_name
-                    )));
-                }
-            };
             let mut range_read_size: usize = read_size - data_offset;
 
             if (range_read_size as u64) > range_remainder_size {
@@ -250,20 +241,26 @@ impl SparseBundleImage {
             }
             let data_end_offset: usize = data_offset + range_read_size;
 
-            let read_count: usize = keramics_core::data_stream_read_at_position!(
-                data_stream,
-                &mut data[data_offset..data_end_offset],
-                SeekFrom::Start(range_relative_offset)
-            );
+            // Note that a missing band file or the part of a band that is not stored is sparse.
+            let mut read_count: usize = match result {
+                Some(data_stream) => keramics_core::data_stream_read_at_position!(
+                    data_stream,
+                    &mut data[data_offset..data_end_offset],
+                    SeekFrom::Start(range_relative_offset)
+                ),
+                None => 0,
+            };
             if read_count == 0 {
-                break;
+                data[data_offset..data_end_offset].fill(0);
+                read_count = range_read_size;
             }
             data_offset += read_count;
             media_offset += read_count as u64;
 
-            block_number += 1;
-            range_relative_offset = 0;
-            range_remainder_size = self.block_size as u64;
+            // Note that a read can return less data than requested.
+            block_number = media_offset / (self.block_size as u64);
+            range_relative_offset = media_offset - (block_number * (self.block_size as u64));
+            range_remainder_size = (self.block_size as u64) - range_relative_offset;
         }
         Ok(data_offset)
     }
diff --git a/keramics-formats/src/sparseimage/file.rs b/keramics-formats/src/sparseimage/file.rs
index 158e96d..0addda7 100644
--- a/keramics-formats/src/sparseimage/file.rs
+++ b/keramics-formats/src/sparseimage/file.rs
@@ -244,7 +244,6 @@ impl SparseImageFile {
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
 
-
             // Note that a read can return less data than requested.
             range_relative_offset = media_offset % (self.block_size as u64);
             range_remainder_size = (self.block_size as u64) - range_relative_offset;
-- 
2.43.0


From f1c936a40610408a3e83e37013b200bba3809090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 020/129] fix: VHD sector bitmap starts with the most
 significant bit

---
 keramics-formats/src/vhd/sector_bitmap.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhd/sector_bitmap.rs b/keramics-formats/src/vhd/sector_bitmap.rs
index 366ea4d..e8cdb8e 100644
--- a/keramics-formats/src/vhd/sector_bitmap.rs
+++ b/keramics-formats/src/vhd/sector_bitmap.rs
@@ -70,9 +70,9 @@ impl VhdSectorBitmap {
         for data_offset in 0..data.len() {
             let mut byte_value: u8 = data[data_offset];
 
-            for _ in (0..8).rev() {
-                let bit_value: u8 = byte_value & 0x01;
-                byte_value >>= 1;
+            for _ in 0..8 {
+                let bit_value: u8 = byte_value >> 7;
+                byte_value <<= 1;
 
                 if bit_value != range_bit_value {
                     self.ranges.push(VhdSectorBitmapRange::new(
-- 
2.43.0


From b83047ae9072fa96f66f82b436ea3ea49961271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 021/129] fix: VHD block number of a read that spans block
 ranges

---
 keramics-formats/src/vhd/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 6dd0d7d..9058a02 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -337,7 +337,6 @@ impl VhdFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -347,6 +346,8 @@ impl VhdFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -417,8 +418,6 @@ impl VhdFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From ba086e846048c86834df7bcdf50e5544e313baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 022/129] fix: VHD sector bitmap of a block that is smaller
 than the bitmap

---
 keramics-formats/src/vhd/file.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 9058a02..9bbff1b 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -185,7 +186,7 @@ impl VhdFile {
                 self.parent_name = Some(dynamic_disk_header.parent_name);
             }
             let sectors_ber_block: u32 = dynamic_disk_header.block_size / 512;
-            self.sector_bitmap_size = (sectors_ber_block / 8).div_ceil(512) * 512;
+            self.sector_bitmap_size = sectors_ber_block.div_ceil(8).div_ceil(512) * 512;
 
             self.block_allocation_table = Some(VhdBlockAllocationTable::new(
                 dynamic_disk_header.block_table_offset,
@@ -291,32 +292,40 @@ impl VhdFile {
         let mut range_media_offset: u64 = block_number * (self.block_size as u64);
         let mut range_data_offset: u64 = sector_bitmap_offset + (self.sector_bitmap_size as u64);
 
+        let block_end_offset: u64 = range_media_offset + (self.block_size as u64);
+
         for bitmap_range in sector_bitmap.ranges.iter() {
+            // Note that the sector bitmap is padded and can represent more sectors than the block.
+            let range_size: u64 = min(bitmap_range.size, block_end_offset - range_media_offset);
+
+            if range_size == 0 {
+                continue;
+            }
             let block_range: VhdBlockRange = if bitmap_range.is_set {
                 VhdBlockRange::new(
                     range_media_offset,
                     range_data_offset,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InFile,
                 )
             } else if self.disk_type == VhdDiskType::Dynamic {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::Sparse,
                 )
             } else {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InParent,
                 )
             };
             match self
                 .block_tree
-                .insert_value(range_media_offset, bitmap_range.size, block_range)
+                .insert_value(range_media_offset, range_size, block_range)
             {
                 Ok(_) => {}
                 Err(error) => {
@@ -326,8 +335,8 @@ impl VhdFile {
                     ));
                 }
             };
-            range_media_offset += bitmap_range.size;
-            range_data_offset += bitmap_range.size;
+            range_media_offset += range_size;
+            range_data_offset += range_size;
         }
         Ok(())
     }
-- 
2.43.0


From 694d04c24d7abdf290fb7dc2d7d6c1395dbe1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 023/129] fix: block tree: values of different sizes and ranges
 that span elements

---
 keramics-formats/src/block_tree.rs      |  22 ++---
 keramics-formats/src/block_tree_node.rs | 113 +++++++++++++++---------
 2 files changed, 80 insertions(+), 55 deletions(-)

diff --git a/keramics-formats/src/block_tree.rs b/keramics-formats/src/block_tree.rs
index 471af06..1a5fb12 100644
--- a/keramics-formats/src/block_tree.rs
+++ b/keramics-formats/src/block_tree.rs
@@ -76,22 +76,22 @@ impl<T> BlockTree<T> {
         if self.root_node.is_none() {
             return None;
         }
+        if offset >= self.data_size {
+            return None;
+        }
         let mut node: &BlockTreeNode<T> = self.root_node.as_ref().unwrap();
 
-        while node.node_type == BlockTreeNodeType::Branch {
-            let sub_node_index: u64 = (offset - node.offset) / node.element_size;
+        loop {
+            let element_index: usize = ((offset - node.offset) / node.element_size) as usize;
 
-            if node.sub_nodes[sub_node_index as usize].is_none() {
-                return None;
+            if let Some(Some(value)) = node.values.get(element_index) {
+                return Some(value);
             }
-            node = node.sub_nodes[sub_node_index as usize].as_ref().unwrap();
-        }
-        let value_index: usize = ((offset - node.offset) / node.element_size) as usize;
-
-        if value_index >= node.values.len() || node.values[value_index].is_none() {
-            return None;
+            node = match node.sub_nodes.get(element_index) {
+                Some(Some(sub_node)) => sub_node,
+                _ => return None,
+            };
         }
-        Some(node.values[value_index].as_ref().unwrap())
     }
 
     /// Inserts a (leaf) value.
diff --git a/keramics-formats/src/block_tree_node.rs b/keramics-formats/src/block_tree_node.rs
index 9f0a6fe..6b6c224 100644
--- a/keramics-formats/src/block_tree_node.rs
+++ b/keramics-formats/src/block_tree_node.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::sync::Arc;
 
 use super::errors::InsertError;
@@ -52,6 +53,16 @@ impl<T> BlockTreeNode<T> {
         }
     }
 
+    /// Retrieves the number of elements.
+    fn get_number_of_elements(&self, elements_per_node: u64) -> u64 {
+        // Note that the root node can have fewer elements.
+        match (self.sub_nodes.len(), self.values.len()) {
+            (0, 0) => elements_per_node,
+            (0, number_of_values) => number_of_values as u64,
+            (number_of_sub_nodes, _) => number_of_sub_nodes as u64,
+        }
+    }
+
     /// Inserts a (leaf) value.
     pub fn insert_value(
         &mut self,
@@ -61,63 +72,77 @@ impl<T> BlockTreeNode<T> {
         size: u64,
         value: Arc<T>,
     ) -> Result<(), InsertError> {
-        if self.node_type == BlockTreeNodeType::Branch {
-            if self.sub_nodes.len() == 0 {
-                self.sub_nodes = (0..elements_per_node).map(|_| None).collect();
-            }
-            let number_of_sub_nodex: u64 = size.div_ceil(self.element_size);
-            let first_sub_node_index: u64 = (offset - self.offset) / self.element_size;
-            let last_sub_node_index: u64 = first_sub_node_index + number_of_sub_nodex;
+        let number_of_elements: u64 = self.get_number_of_elements(elements_per_node);
+        let end_offset: u64 = offset + size;
 
-            let mut sub_node_element_size: u64 = leaf_value_size;
+        let mut range_offset: u64 = offset;
 
-            while self.element_size / sub_node_element_size > elements_per_node {
-                sub_node_element_size *= elements_per_node;
+        while range_offset < end_offset {
+            let element_index: u64 = (range_offset - self.offset) / self.element_size;
+
+            if element_index >= number_of_elements {
+                return Err(InsertError::new(format!(
+                    "Offset: {} value out of bounds",
+                    range_offset
+                )));
             }
-            let sub_node_type: BlockTreeNodeType = if sub_node_element_size <= size {
-                BlockTreeNodeType::Leaf
-            } else {
-                BlockTreeNodeType::Branch
+            let element_offset: u64 = self.offset + (element_index * self.element_size);
+            let element_end_offset: u64 = element_offset + self.element_size;
+            let range_end_offset: u64 = min(end_offset, element_end_offset);
+
+            let value_is_set: bool = match self.values.get(element_index as usize) {
+                Some(value) => value.is_some(),
+                None => false,
             };
-            let mut sub_node_offset: u64 = self.offset + (first_sub_node_index * self.element_size);
+            if value_is_set {
+                return Err(InsertError::new(format!("Leaf value already set")));
+            }
+            if range_offset == element_offset && range_end_offset == element_end_offset {
+                let sub_node_is_set: bool = match self.sub_nodes.get(element_index as usize) {
+                    Some(sub_node) => sub_node.is_some(),
+                    None => false,
+                };
+                if sub_node_is_set {
+                    return Err(InsertError::new(format!("Leaf value already set")));
+                }
+                if self.values.is_empty() {
+                    self.values = (0..number_of_elements).map(|_| None).collect();
+                }
+                self.values[element_index as usize] = Some(value.clone());
+            } else {
+                // Note that a node that has leaf values changes into a branch when a value is
+                // inserted that is smaller than an element.
+                if self.sub_nodes.is_empty() {
+                    self.sub_nodes = (0..number_of_elements).map(|_| None).collect();
+                }
+                self.node_type = BlockTreeNodeType::Branch;
+
+                let mut sub_node_element_size: u64 = leaf_value_size;
 
-            for sub_node_index in first_sub_node_index..last_sub_node_index {
-                if self.sub_nodes[sub_node_index as usize].is_none() {
-                    let sub_node: BlockTreeNode<T> =
-                        BlockTreeNode::new(&sub_node_type, sub_node_offset, sub_node_element_size);
-                    self.sub_nodes[sub_node_index as usize] = Some(sub_node);
+                while self.element_size / sub_node_element_size > elements_per_node {
+                    sub_node_element_size *= elements_per_node;
                 }
+                let range_size: u64 = range_end_offset - range_offset;
+
                 let sub_node: &mut BlockTreeNode<T> =
-                    &mut self.sub_nodes[sub_node_index as usize].as_mut().unwrap();
+                    self.sub_nodes[element_index as usize].get_or_insert_with(|| {
+                        let sub_node_type: BlockTreeNodeType =
+                            if sub_node_element_size <= range_size {
+                                BlockTreeNodeType::Leaf
+                            } else {
+                                BlockTreeNodeType::Branch
+                            };
+                        BlockTreeNode::new(&sub_node_type, element_offset, sub_node_element_size)
+                    });
                 sub_node.insert_value(
                     elements_per_node,
                     leaf_value_size,
-                    offset,
-                    size,
+                    range_offset,
+                    range_size,
                     value.clone(),
                 )?;
-                sub_node_offset += self.element_size;
-            }
-        } else {
-            if size % self.element_size != 0 {
-                return Err(InsertError::new(format!(
-                    "Size: {} not a multitude of node element size: {}",
-                    size, self.element_size
-                )));
-            }
-            if self.values.len() == 0 {
-                self.values = (0..elements_per_node).map(|_| None).collect();
-            }
-            let number_of_values: u64 = size / self.element_size;
-            let first_value_index: u64 = (offset - self.offset) / self.element_size;
-            let last_value_index: u64 = first_value_index + number_of_values;
-
-            for value_index in first_value_index..last_value_index {
-                if self.values[value_index as usize].is_some() {
-                    return Err(InsertError::new(format!("Leaf value already set")));
-                }
-                self.values[value_index as usize] = Some(value.clone());
             }
+            range_offset = range_end_offset;
         }
         Ok(())
     }
-- 
2.43.0


From 6634ec4bec416be4c2f35318560295147699e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 024/129] fix: media size of a VHD image is its current size

---
 keramics-formats/src/vhd/file_footer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/vhd/file_footer.rs b/keramics-formats/src/vhd/file_footer.rs
index 993b73d..15e6c07 100644
--- a/keramics-formats/src/vhd/file_footer.rs
+++ b/keramics-formats/src/vhd/file_footer.rs
@@ -92,7 +92,7 @@ impl VhdFileFooter {
             )));
         }
         self.next_offset = bytes_to_u64_be!(data, 16);
-        self.data_size = bytes_to_u64_be!(data, 40);
+        self.data_size = bytes_to_u64_be!(data, 48);
         self.disk_type = bytes_to_u32_be!(data, 60);
         self.identifier = Uuid::from_be_bytes(&data[68..84]);
 
-- 
2.43.0


From e7dc446f2e9d666abf7c0fb29c9d34f18b474f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 025/129] fix: reading VHDX metadata items after a short read

---
 keramics-formats/src/vhdx/file.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 022ce89..3a4e2ee 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -305,7 +305,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
@@ -357,7 +357,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
@@ -390,7 +390,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
@@ -432,7 +432,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
@@ -469,7 +469,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
-- 
2.43.0


From 5d9730ef1a79ff41e484da75bf9168df299c2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 026/129] fix: VHDX block number of a read that spans block
 ranges

---
 keramics-formats/src/vhdx/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 3a4e2ee..8fa3a1e 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -717,7 +717,6 @@ impl VhdxFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -727,6 +726,8 @@ impl VhdxFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -797,8 +798,6 @@ impl VhdxFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From b8af72f42adfe92b490644c8740a1564c4090776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 027/129] fix: VHDX disk type of dynamic and fixed-size images
 was swapped

---
 keramics-formats/src/vhdx/file.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 8fa3a1e..4cef93b 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -313,11 +313,12 @@ impl VhdxFile {
                 let file_parameters_flags: u32 = bytes_to_u32_le!(data, 4);
 
                 self.block_size = bytes_to_u32_le!(data, 0);
-                self.disk_type = match file_parameters_flags & 0x00000003 {
-                    0 => VhdxDiskType::Fixed,
-                    1 => VhdxDiskType::Dynamic,
-                    2 => VhdxDiskType::Differential,
-                    _ => VhdxDiskType::Unknown,
+                self.disk_type = if file_parameters_flags & 0x00000002 != 0 {
+                    VhdxDiskType::Differential
+                } else if file_parameters_flags & 0x00000001 != 0 {
+                    VhdxDiskType::Fixed
+                } else {
+                    VhdxDiskType::Dynamic
                 };
                 if self.mediator.debug_output {
                     self.mediator.debug_print(format!(
-- 
2.43.0


From a33e684835c7e9e133fb821bff809ff8813fb6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 028/129] fix: VHDX blocks of a differential image that are not
 (partially) present

---
 keramics-formats/src/vhdx/file.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 4cef93b..699ab55 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -591,7 +591,7 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
-        if self.disk_type == VhdxDiskType::Differential && entry.block_state != 6 {
+        if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -602,7 +602,16 @@ impl VhdxFile {
         } else {
             let block_media_offset: u64 = block_number * (self.block_size as u64);
 
-            let block_range: VhdxBlockRange = if entry.block_state < 6 {
+            let block_range: VhdxBlockRange = if self.disk_type == VhdxDiskType::Differential
+                && entry.block_state == 0
+            {
+                VhdxBlockRange::new(
+                    block_media_offset,
+                    0,
+                    self.block_size as u64,
+                    VhdxBlockRangeType::InParent,
+                )
+            } else if entry.block_state < 6 {
                 VhdxBlockRange::new(
                     block_media_offset,
                     0,
-- 
2.43.0


From 6dbbe48484dded1ef0805f9b36da503a4a833b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 029/129] fix: QCOW level 1 entry without a level 2 table at
 the end of the media or with a backing file

---
 keramics-formats/src/qcow/file.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 46bf951..653f863 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -345,13 +346,21 @@ impl QcowFile {
         let level2_table_offset: u64 = level1_entry.reference & self.offset_bit_mask;
 
         if level2_table_offset == 0 {
-            let range_media_size: u64 = 1 << self.level1_index_bit_shift;
-
+            // The last level 1 entry can represent more than the remaining media data.
+            let remaining_media_size: u64 = (self.media_size - level1_media_offset)
+                .div_ceil(self.cluster_block_size)
+                * self.cluster_block_size;
+            let range_media_size: u64 = min(1 << self.level1_index_bit_shift, remaining_media_size);
+            let range_type: QcowBlockRangeType = if self.backing_file_name.is_some() {
+                QcowBlockRangeType::InBackingFile
+            } else {
+                QcowBlockRangeType::Sparse
+            };
             let block_range: QcowBlockRange = QcowBlockRange::new(
                 level1_media_offset,
                 0,
                 range_media_size,
-                QcowBlockRangeType::Sparse,
+                range_type,
             );
             match self
                 .block_tree
-- 
2.43.0


From 45094886ddfeb9b9d4547276c52d170359ac8c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 030/129] fix: QCOW media data beyond the end of the backing
 file

---
 keramics-formats/src/qcow/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 653f863..642ba43 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -500,7 +500,13 @@ impl QcowFile {
                         &mut data[data_offset..data_end_offset],
                         SeekFrom::Start(media_offset)
                     );
-                    read_count
+                    if read_count == 0 {
+                        // The media data beyond the end of the backing file is sparse.
+                        data[data_offset..data_end_offset].fill(0);
+                        range_read_size
+                    } else {
+                        read_count
+                    }
                 }
                 QcowBlockRangeType::InFile => {
                     let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
-- 
2.43.0


From a4800696a8cad33bb3aa5e3558f41692eccc3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 031/129] fix: QCOW version 3 cluster block that reads as zeros

---
 keramics-formats/src/qcow/file.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 642ba43..d9ddafa 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -397,15 +397,28 @@ impl QcowFile {
             };
             let level2_media_offset: u64 =
                 level1_media_offset + (level2_table_index * self.cluster_block_size);
-            let block_data_offset: u64 = level2_entry.reference & self.offset_bit_mask;
-            let range_type: QcowBlockRangeType = if block_data_offset == 0 {
+            let is_compressed: bool =
+                (level2_entry.reference & self.compression_flag_bit_mask) != 0;
+            let block_data_offset: u64 = if self.format_version == 1 || is_compressed {
+                level2_entry.reference & self.offset_bit_mask
+            } else {
+                // The lower 9 bits contain flags or are reserved.
+                level2_entry.reference & self.offset_bit_mask & !0x1ff
+            };
+            let range_type: QcowBlockRangeType = if self.format_version == 3
+                && !is_compressed
+                && (level2_entry.reference & 1) != 0
+            {
+                // The cluster block reads as zeros.
+                QcowBlockRangeType::Sparse
+            } else if block_data_offset == 0 {
                 if self.backing_file_name.is_some() {
                     QcowBlockRangeType::InBackingFile
                 } else {
                     QcowBlockRangeType::Sparse
                 }
             } else {
-                if (level2_entry.reference & self.compression_flag_bit_mask) == 0 {
+                if !is_compressed {
                     QcowBlockRangeType::InFile
                 } else {
                     if self.encryption_method != QcowEncryptionMethod::None {
-- 
2.43.0


From ae183d80b17f25d9754e490c23646db6226954c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 032/129] fix: read compressed QCOW cluster blocks

---
 keramics-formats/src/qcow/file.rs        | 104 ++++++++++++++++++++++-
 keramics-formats/src/qcow/file_header.rs |   4 +-
 2 files changed, 103 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index d9ddafa..7495306 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -15,6 +15,7 @@ use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
+use keramics_compression::DeflateContext;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
 use keramics_types::ByteString;
@@ -73,6 +74,8 @@ pub struct QcowFile {
     /// Compression bit mask.
     compression_bit_mask: u64,
 
+    /// Compressed sector size.
+    compressed_sector_size: u64,
     /// Compression flag bit mask.
     compression_flag_bit_mask: u64,
 
@@ -85,6 +88,10 @@ pub struct QcowFile {
     /// Block tree.
     block_tree: BlockTree<QcowBlockRange>,
 
+    /// Offset of the last decompressed cluster block.
+    uncompressed_data_offset: Option<u64>,
+    /// Data of the last decompressed cluster block.
+    uncompressed_data: Vec<u8>,
     /// Backing file name.
     backing_file_name: Option<ByteString>,
 
@@ -117,10 +124,13 @@ impl QcowFile {
             cluster_block_size: 0,
             compression_bit_shift: 0,
             compression_bit_mask: 0,
+            compressed_sector_size: 0,
             compression_flag_bit_mask: 0,
             compression_method: QcowCompressionMethod::Zlib,
             encryption_method: QcowEncryptionMethod::None,
             block_tree: BlockTree::<QcowBlockRange>::new(0, 0, 0),
+            uncompressed_data_offset: None,
+            uncompressed_data: Vec::new(),
             backing_file_name: None,
             backing_file: None,
             media_size: 0,
@@ -178,14 +188,25 @@ impl QcowFile {
                 _ => QcowCompressionMethod::Unknown,
             };
         }
+        if self.number_of_cluster_block_bits < 9
+            || self.number_of_cluster_block_bits > 21
+            || file_header.number_of_level2_table_bits > 21
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of cluster block bits: {} or level 2 table bits: {} value out of bounds",
+                self.number_of_cluster_block_bits, file_header.number_of_level2_table_bits
+            )));
+        }
         if self.format_version == 1 {
             self.offset_bit_mask = 0x7fffffffffffffff;
             self.compression_flag_bit_mask = 1 << 63;
             self.compression_bit_shift = 63 - self.number_of_cluster_block_bits;
+            self.compressed_sector_size = 1;
         } else {
             self.offset_bit_mask = 0x3fffffffffffffff;
             self.compression_flag_bit_mask = 1 << 62;
-            self.compression_bit_shift = 62 - self.number_of_cluster_block_bits;
+            self.compression_bit_shift = 62 - (self.number_of_cluster_block_bits - 8);
+            self.compressed_sector_size = 512;
         }
         self.level1_index_bit_shift =
             self.number_of_cluster_block_bits + file_header.number_of_level2_table_bits;
@@ -452,6 +473,66 @@ impl QcowFile {
         Ok(())
     }
 
+    /// Reads a compressed cluster block.
+    fn read_compressed_cluster_block(&mut self, block_data_offset: u64) -> Result<(), ErrorTrace> {
+        let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
+            Some(data_stream) => data_stream,
+            None => {
+                return Err(keramics_core::error_trace_new!("Missing data stream"));
+            }
+        };
+        if self.compression_method != QcowCompressionMethod::Zlib {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported compression method"
+            ));
+        }
+        let file_size: u64 = keramics_core::data_stream_get_size!(data_stream);
+        let compressed_data_offset: u64 = block_data_offset & self.compression_bit_mask;
+        let mut compressed_data_size: u64 = block_data_offset >> self.compression_bit_shift;
+        if self.compressed_sector_size > 1 {
+            // The size in sectors does not include the first sector and the last sector
+            // can be shorter in the file.
+            compressed_data_size = (compressed_data_size + 1) * self.compressed_sector_size;
+        }
+        if compressed_data_offset >= file_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid compressed cluster block offset: {} value out of bounds",
+                compressed_data_offset
+            )));
+        }
+        compressed_data_size = min(compressed_data_size, file_size - compressed_data_offset);
+
+        let mut compressed_data: Vec<u8> = vec![0; compressed_data_size as usize];
+
+        keramics_core::data_stream_read_exact_at_position!(
+            data_stream,
+            &mut compressed_data,
+            SeekFrom::Start(compressed_data_offset)
+        );
+        self.uncompressed_data_offset = None;
+        self.uncompressed_data
+            .resize(self.cluster_block_size as usize, 0);
+
+        let mut deflate_context: DeflateContext = DeflateContext::new();
+
+        match deflate_context.decompress(&compressed_data, &mut self.uncompressed_data) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to decompress cluster block");
+                return Err(error);
+            }
+        }
+        if deflate_context.uncompressed_data_size as u64 != self.cluster_block_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid uncompressed cluster block size: {} value out of bounds",
+                deflate_context.uncompressed_data_size
+            )));
+        }
+        self.uncompressed_data_offset = Some(block_data_offset);
+
+        Ok(())
+    }
+
     /// Reads media data based on the level 1 and level 2 tables.
     fn read_data_from_blocks(&mut self, data: &mut [u8]) -> Result<usize, ErrorTrace> {
         let read_size: usize = data.len();
@@ -498,8 +579,25 @@ impl QcowFile {
             let data_end_offset: usize = data_offset + range_read_size;
             let range_read_count: usize = match block_range.range_type {
                 QcowBlockRangeType::Compressed => {
-                    // TODO: add compression support.
-                    todo!();
+                    let block_data_offset: u64 = block_range.data_offset;
+                    if self.uncompressed_data_offset != Some(block_data_offset) {
+                        match self.read_compressed_cluster_block(block_data_offset) {
+                            Ok(_) => {}
+                            Err(mut error) => {
+                                keramics_core::error_trace_add_frame!(
+                                    error,
+                                    "Unable to read compressed cluster block"
+                                );
+                                return Err(error);
+                            }
+                        }
+                    }
+                    let range_data_offset: usize = range_relative_offset as usize;
+                    let range_data_end_offset: usize = range_data_offset + range_read_size;
+                    data[data_offset..data_end_offset].copy_from_slice(
+                        &self.uncompressed_data[range_data_offset..range_data_end_offset],
+                    );
+                    range_read_size
                 }
                 QcowBlockRangeType::InBackingFile => {
                     let backing_file: &Arc<RwLock<QcowFile>> = match self.backing_file.as_ref() {
diff --git a/keramics-formats/src/qcow/file_header.rs b/keramics-formats/src/qcow/file_header.rs
index f31ec8c..e9bb38b 100644
--- a/keramics-formats/src/qcow/file_header.rs
+++ b/keramics-formats/src/qcow/file_header.rs
@@ -151,7 +151,7 @@ impl QcowFileHeader {
                     }
                 }
                 self.header_size = 72;
-                self.number_of_level2_table_bits = self.number_of_cluster_block_bits - 3;
+                self.number_of_level2_table_bits = self.number_of_cluster_block_bits.saturating_sub(3);
             }
             3 => {
                 if self.mediator.debug_output {
@@ -168,7 +168,7 @@ impl QcowFileHeader {
                         return Err(error);
                     }
                 }
-                self.number_of_level2_table_bits = self.number_of_cluster_block_bits - 3;
+                self.number_of_level2_table_bits = self.number_of_cluster_block_bits.saturating_sub(3);
             }
             _ => {
                 return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From d055de6875e662a41bb0f24dcdae0a3b16b6df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 033/129] fix: QCOW compression method of a file header of 104
 bytes

---
 keramics-formats/src/qcow/file_header_v3.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/qcow/file_header_v3.rs b/keramics-formats/src/qcow/file_header_v3.rs
index 6b2a84e..1e90c03 100644
--- a/keramics-formats/src/qcow/file_header_v3.rs
+++ b/keramics-formats/src/qcow/file_header_v3.rs
@@ -94,8 +94,10 @@ impl QcowFileHeaderV3 {
         file_header.number_of_snapshots = bytes_to_u32_be!(data, 60);
         file_header.snapshots_offset = bytes_to_u64_be!(data, 64);
         file_header.header_size = bytes_to_u32_be!(data, 100);
-        file_header.compression_method = data[104];
-
+        // The compression method is only present if the file header size is 112.
+        if file_header.header_size == 112 {
+            file_header.compression_method = data[104];
+        }
         if file_header.number_of_cluster_block_bits <= 8
             || file_header.number_of_cluster_block_bits > 63
         {
-- 
2.43.0


From e1fc1679fdead85856d29c81f7c9cbde2fbf1229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 034/129] fix: DEFLATE block without distance codes

---
 keramics-compression/src/deflate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index dabcfbe..1041966 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -400,8 +400,12 @@ impl DeflateContext {
             ));
         }
         literals_huffman_tree.build(&code_sizes[0..number_of_literal_codes])?;
-        distances_huffman_tree.build(&code_sizes[number_of_literal_codes..number_of_codes])?;
+        // A block that only contains literals does not need distance codes.
+        let distance_code_sizes: &[u8] = &code_sizes[number_of_literal_codes..number_of_codes];
 
+        if distance_code_sizes.iter().any(|code_size| *code_size != 0) {
+            distances_huffman_tree.build(distance_code_sizes)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From fb08e864368120c37c97522eaf8a5464f5aaa95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 035/129] fix: DEFLATE data that ends before the last block

---
 keramics-compression/src/deflate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index 1041966..c77a57e 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -455,7 +455,12 @@ impl DeflateContext {
         let mut uncompressed_data_offset: usize = 0;
         let uncompressed_data_size: usize = uncompressed_data.len();
 
-        while bitstream.data_offset < bitstream.data_size {
+        loop {
+            if bitstream.data_offset >= bitstream.data_size && bitstream.number_of_bits < 3 {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid compressed data value too small - missing last block"
+                ));
+            }
             let mut block_header: DeflateBlockHeader = DeflateBlockHeader::new();
             block_header.read_from_bitstream(bitstream)?;
 
-- 
2.43.0


From a55e22500c8d65ed06bcf54663bdbef0870caf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 036/129] fix: checksum of zlib compressed data was not
 verified

---
 keramics-compression/src/zlib.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 5c250cf..9adad12 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -160,19 +160,22 @@ impl ZlibContext {
 
         bitstream.unread_data();
 
-        if 4 < bitstream.data_size - bitstream.data_offset {
-            let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
-
-            let mut adler32_context: Adler32Context = Adler32Context::new(1);
-            adler32_context.update(uncompressed_data);
-            let calculated_checksum: u32 = adler32_context.finalize();
-
-            if stored_checksum != calculated_checksum {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
-                    stored_checksum, calculated_checksum
-                )));
-            }
+        if bitstream.data_size - bitstream.data_offset < 4 {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid compressed data value too small - missing checksum"
+            ));
+        }
+        let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
+
+        let mut adler32_context: Adler32Context = Adler32Context::new(1);
+        adler32_context.update(&uncompressed_data[..deflate_context.uncompressed_data_size]);
+        let calculated_checksum: u32 = adler32_context.finalize();
+
+        if stored_checksum != calculated_checksum {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
+                stored_checksum, calculated_checksum
+            )));
         }
         self.uncompressed_data_size = deflate_context.uncompressed_data_size;
 
-- 
2.43.0


From 58f798f7c26913246db963f4379aa4d724e7749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 037/129] fix: bzip2 stream of multiple blocks or blocks larger
 than 100000 bytes

---
 keramics-compression/src/bzip2.rs | 59 +++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index db14796..f1dcd3f 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -149,12 +149,15 @@ impl<'a> Bitstream for Bzip2Bitstream<'a> {
     method(name = "debug_read_data")
 )]
 /// Stream header used by bzip2 compressed data.
-struct Bzip2StreamHeader {}
+struct Bzip2StreamHeader {
+    /// Block size.
+    pub block_size: usize,
+}
 
 impl Bzip2StreamHeader {
     /// Creates a new stream header.
     pub fn new() -> Self {
-        Self {}
+        Self { block_size: 0 }
     }
 
     /// Reads the stream header.
@@ -177,6 +180,8 @@ impl Bzip2StreamHeader {
                 compression_level as char
             )));
         }
+        self.block_size = ((compression_level - 0x30) as usize) * BZIP2_BLOCK_SIZE;
+
         Ok(())
     }
 }
@@ -254,6 +259,9 @@ pub struct Bzip2Context {
     /// Mediator.
     mediator: MediatorReference,
 
+    /// Block size.
+    block_size: usize,
+
     /// Uncompressed data size.
     pub uncompressed_data_size: usize,
 }
@@ -263,6 +271,7 @@ impl Bzip2Context {
     pub fn new() -> Self {
         Self {
             mediator: Mediator::current(),
+            block_size: BZIP2_BLOCK_SIZE,
             uncompressed_data_size: 0,
         }
     }
@@ -295,6 +304,8 @@ impl Bzip2Context {
         }
         data_header.read_data(compressed_data)?;
 
+        self.block_size = data_header.block_size;
+
         let mut bitstream: Bzip2Bitstream = Bzip2Bitstream::new(&compressed_data, 4);
         self.decompress_bitstream(&mut bitstream, uncompressed_data)?;
 
@@ -307,20 +318,23 @@ impl Bzip2Context {
         bitstream: &mut Bzip2Bitstream,
         uncompressed_data: &mut [u8],
     ) -> Result<(), ErrorTrace> {
-        let mut block_data: [u8; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let block_size: usize = self.block_size;
+        let mut block_data: Vec<u8> = vec![0; block_size];
         let mut selectors: [u8; 32769] = [0; 32769]; // ( 1 << 15 ) + 1 = 32769
         let mut symbol_stack: [u8; 256] = [0; 256];
         let mut uncompressed_data_offset: usize = 0;
         let uncompressed_data_size: usize = uncompressed_data.len();
 
+        let mut stream_checksum: u32 = 0;
         let mut block_header: Bzip2BlockHeader = Bzip2BlockHeader::new();
-        while bitstream.data_offset < bitstream.data_size {
+
+        loop {
             block_header.read_from_bitstream(bitstream)?;
 
             if block_header.signature == 0x177245385090 {
                 break;
             }
-            if (block_header.origin_pointer as usize) >= BZIP2_BLOCK_SIZE {
+            if (block_header.origin_pointer as usize) >= block_size {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid origin pointer: 0x{:06x} value out of bounds",
                     block_header.origin_pointer
@@ -367,6 +381,14 @@ impl Bzip2Context {
                 number_of_symbols,
                 &mut block_data,
             )?;
+            if (block_header.origin_pointer as usize) >= block_data_size {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid origin pointer: 0x{:06x} value out of bounds",
+                    block_header.origin_pointer
+                )));
+            }
+            let block_start_offset: usize = uncompressed_data_offset;
+
             self.reverse_burrows_wheeler_transform(
                 &block_data,
                 block_data_size,
@@ -375,15 +397,22 @@ impl Bzip2Context {
                 &mut uncompressed_data_offset,
                 uncompressed_data_size,
             )?;
-        }
-        let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
-        crc32_context.update(&uncompressed_data[0..uncompressed_data_offset]);
-        let calculated_checksum: u32 = crc32_context.finalize();
+            let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
+            crc32_context.update(&uncompressed_data[block_start_offset..uncompressed_data_offset]);
+            let calculated_checksum: u32 = crc32_context.finalize();
 
-        if block_header.checksum != calculated_checksum {
+            if block_header.checksum != calculated_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
+                    block_header.checksum, calculated_checksum
+                )));
+            }
+            stream_checksum = stream_checksum.rotate_left(1) ^ calculated_checksum;
+        }
+        if block_header.checksum != stream_checksum {
             return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
-                block_header.checksum, calculated_checksum
+                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 stream checksums",
+                block_header.checksum, stream_checksum
             )));
         }
         self.uncompressed_data_size = uncompressed_data_offset;
@@ -431,7 +460,7 @@ impl Bzip2Context {
                     self.mediator
                         .debug_print(format!("    0-byte run-length: {}\n", run_length,));
                 }
-                if (run_length as usize) > BZIP2_BLOCK_SIZE - block_data_offset {
+                if (run_length as usize) > block_data.len() - block_data_offset {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid run length: {} value out of bounds",
                         run_length
@@ -479,7 +508,7 @@ impl Bzip2Context {
                     self.mediator
                         .debug_print(format!("    symbol: {} (MTF: {})\n", symbol, stack_value));
                 }
-                if block_data_offset >= BZIP2_BLOCK_SIZE {
+                if block_data_offset >= block_data.len() {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid block data offset: {} value out of bounds",
                         block_data_offset
@@ -697,7 +726,7 @@ impl Bzip2Context {
         let mut distributions: [usize; 256] = [0; 256];
         let mut last_byte_value: u8 = 0;
         let mut number_of_last_byte_values: u8 = 0;
-        let mut permutations: [usize; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut permutations: Vec<usize> = vec![0; block_data_size];
 
         for block_data_offset in 0..block_data_size {
             let byte_value: u8 = block_data[block_data_offset];
-- 
2.43.0


From 9db7e386df02f3f238592bf4c2a0db6f8e087ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 038/129] fix: reading a UDIF plist after a short read

---
 keramics-formats/src/udif/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index b37fef4..b528fd9 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -122,7 +122,7 @@ impl UdifFile {
             }
             let mut data: Vec<u8> = vec![0; file_footer.plist_size as usize];
 
-            keramics_core::data_stream_read_at_position!(
+            keramics_core::data_stream_read_exact_at_position!(
                 data_stream,
                 &mut data,
                 SeekFrom::Start(file_footer.plist_offset)
-- 
2.43.0


From b03c190234627d80240262f4a9859301d2069ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 039/129] fix: UDIF sparse block range at the end of the data
 fork

---
 keramics-formats/src/udif/file.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index b528fd9..3e472d3 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -236,16 +236,22 @@ impl UdifFile {
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_offset < file_footer.data_fork_offset
-                        || block_table_entry.data_offset >= data_fork_end_offset
+                    // Sparse data is not stored in the data fork.
+                    let is_sparse: bool = block_table_entry.entry_type == 0x00000000
+                        || block_table_entry.entry_type == 0x00000002;
+
+                    if !is_sparse
+                        && (block_table_entry.data_offset < file_footer.data_fork_offset
+                            || block_table_entry.data_offset >= data_fork_end_offset)
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data offset value out of bounds",
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_size
-                        > data_fork_end_offset - block_table_entry.data_offset
+                    if !is_sparse
+                        && block_table_entry.data_size
+                            > data_fork_end_offset - block_table_entry.data_offset
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data size value out of bounds",
-- 
2.43.0


From 293b88588ac5936dc700113fa58d7aed94d7b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 040/129] fix: UDIF plist that is larger than 64 KiB

---
 keramics-formats/src/udif/file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 3e472d3..f7214a1 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -26,6 +26,9 @@ use super::block_table::UdifBlockTable;
 use super::enums::UdifCompressionMethod;
 use super::file_footer::UdifFileFooter;
 
+/// Maximum size of the XML plist.
+const MAXIMUM_PLIST_SIZE: u64 = 64 * 1024 * 1024;
+
 const MAXIMUM_NUMBER_OF_SECTORS: u64 = u64::MAX / 512;
 
 /// Universal Disk Image Format (UDIF) file.
@@ -115,7 +118,7 @@ impl UdifFile {
             self.has_block_ranges = false;
             self.media_size = file_footer.data_fork_size;
         } else {
-            if file_footer.plist_size == 0 || file_footer.plist_size > 65536 {
+            if file_footer.plist_size == 0 || file_footer.plist_size > MAXIMUM_PLIST_SIZE {
                 return Err(keramics_core::error_trace_new!(
                     "Unsupported plist data size"
                 ));
-- 
2.43.0


From 3cd3a268a97c1aa051feee0fc4f537beafb30c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 041/129] fix: LZFSE block with less than 8 bytes of compressed
 data

---
 keramics-compression/src/lzfse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index bf9d1da..e54718a 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -981,7 +981,8 @@ impl LzfseContext {
                 ));
         }
         block_header.read_data(&compressed_data[data_offset..data_end_offset], decoder)?;
-        if block_header.header_size as usize > compressed_data_size - data_offset {
+        // The header size includes the block marker and uncompressed block size.
+        if block_header.header_size as usize - 8 > compressed_data_size - data_offset {
             return Err(keramics_core::error_trace_new!(
                 "Invalid compressed data value too small"
             ));
-- 
2.43.0


From 34036e42ee9d9f6f8dbcb3b4bf7c020a0a74cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 042/129] fix: EWF chunks at the same offset in different
 segment files

---
 keramics-formats/src/ewf/image.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 0ee6d0c..e80265e 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -254,7 +254,7 @@ impl EwfImage {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut compressed_data: Vec<u8> = vec![0; block_range.data_size as usize];
 
                         match segment_file.read_exact_at_position(
@@ -298,9 +298,9 @@ impl EwfImage {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, block_data);
+                        self.block_cache.insert(block_range.media_offset, block_data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
-- 
2.43.0


From 318f06ce178a53b7e8ccb6a22a18dcfc6c78434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 043/129] fix: reading from an EWF image of more than 16
 segment files

---
 keramics-formats/src/ewf/enums.rs |   1 +
 keramics-formats/src/ewf/image.rs | 139 ++++++++++++++++++++++--------
 2 files changed, 106 insertions(+), 34 deletions(-)

diff --git a/keramics-formats/src/ewf/enums.rs b/keramics-formats/src/ewf/enums.rs
index 3277e67..e9bec7e 100644
--- a/keramics-formats/src/ewf/enums.rs
+++ b/keramics-formats/src/ewf/enums.rs
@@ -44,6 +44,7 @@ pub enum EwfMediaType {
 }
 
 /// Segment file naming schema.
+#[derive(Clone)]
 pub enum EwfNamingSchema {
     E01LowerCase,
     E01UpperCase,
diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index e80265e..8083549 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -51,6 +51,12 @@ pub struct EwfImage {
     /// Segment file set identifier.
     pub set_identifier: Uuid,
 
+    /// Segment file name without extension.
+    segment_file_stem: String,
+
+    /// Segment file naming schema.
+    naming_schema: EwfNamingSchema,
+
     /// Segment file cache.
     segment_file_cache: LruCache<u16, EwfFile>,
 
@@ -104,6 +110,8 @@ impl EwfImage {
             mediator: Mediator::current(),
             file_resolver: FileResolverReference::new(Box::new(FakeFileResolver::new())),
             set_identifier: Uuid::new(),
+            segment_file_stem: String::new(),
+            naming_schema: EwfNamingSchema::E01UpperCase,
             segment_file_cache: LruCache::new(16),
             number_of_chunks: 0,
             sectors_per_chunk: 0,
@@ -182,6 +190,68 @@ impl EwfImage {
         Ok(segment_extension)
     }
 
+    /// Determines the segment file name for a given segment number.
+    fn get_segment_file_name(
+        &self,
+        segment_number: u16,
+        file_stem: &str,
+        naming_schema: &EwfNamingSchema,
+    ) -> Result<String, ErrorTrace> {
+        match self.get_segment_file_extension(segment_number, naming_schema) {
+            Ok(extension) => Ok(format!("{}.{}", file_stem, extension)),
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(
+                    error,
+                    "Unable to determine segment file extension"
+                );
+                return Err(error);
+            }
+        }
+    }
+
+    /// Opens a segment file.
+    fn open_segment_file(
+        &self,
+        file_resolver: &FileResolverReference,
+        segment_file_name: &String,
+    ) -> Result<(EwfFile, DataStreamReference), ErrorTrace> {
+        let path_components: [PathComponent; 1] = [PathComponent::from(segment_file_name)];
+
+        let result: Option<DataStreamReference> =
+            match file_resolver.get_data_stream(&path_components) {
+                Ok(result) => result,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        format!("Unable to open segment file: {}", segment_file_name)
+                    );
+                    return Err(error);
+                }
+            };
+        let data_stream: DataStreamReference = match result {
+            Some(data_stream) => data_stream,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "No such segment file: {}",
+                    segment_file_name
+                )));
+            }
+        };
+        let mut segment_file: EwfFile = EwfFile::new();
+
+        match segment_file.read_data_stream(&data_stream) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(
+                    error,
+                    format!("Unable to read segment file: {}", segment_file_name)
+                );
+                return Err(error);
+            }
+        }
+        Ok((segment_file, data_stream))
+    }
+
     /// Opens a storage media image.
     pub fn open(
         &mut self,
@@ -225,7 +295,31 @@ impl EwfImage {
                 .segment_file_cache
                 .contains(&block_range.segment_number)
             {
-                let file: EwfFile = EwfFile::new();
+                let segment_file_name: String = match self.get_segment_file_name(
+                    block_range.segment_number,
+                    &self.segment_file_stem,
+                    &self.naming_schema,
+                ) {
+                    Ok(segment_file_name) => segment_file_name,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to determine segment file name"
+                        );
+                        return Err(error);
+                    }
+                };
+                let (file, _) =
+                    match self.open_segment_file(&self.file_resolver, &segment_file_name) {
+                        Ok(result) => result,
+                        Err(mut error) => {
+                            keramics_core::error_trace_add_frame!(
+                                error,
+                                "Unable to open segment file"
+                            );
+                            return Err(error);
+                        }
+                    };
 
                 self.segment_file_cache
                     .insert(block_range.segment_number, file);
@@ -603,52 +697,26 @@ impl EwfImage {
         let mut segment_number: u16 = 1;
 
         while !last_segment_file {
-            let segment_extension: String =
-                match self.get_segment_file_extension(segment_number, &naming_schema) {
-                    Ok(extension) => extension,
+            let segment_file_name: String =
+                match self.get_segment_file_name(segment_number, &name, &naming_schema) {
+                    Ok(segment_file_name) => segment_file_name,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
-                            "Unable to determine segment file extension"
+                            "Unable to determine segment file name"
                         );
                         return Err(error);
                     }
                 };
-            let segment_file_name: String = format!("{}.{}", name, segment_extension);
-
-            let path_components: [PathComponent; 1] = [PathComponent::from(&segment_file_name)];
-            let result: Option<DataStreamReference> =
-                match file_resolver.get_data_stream(&path_components) {
+            let (segment_file, data_stream) =
+                match self.open_segment_file(file_resolver, &segment_file_name) {
                     Ok(result) => result,
                     Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            format!("Unable to open segment file: {}", segment_file_name)
-                        );
+                        keramics_core::error_trace_add_frame!(error, "Unable to open segment file");
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such segment file: {}",
-                        segment_file_name
-                    )));
-                }
-            };
-            let mut segment_file: EwfFile = EwfFile::new();
 
-            match segment_file.read_data_stream(&data_stream) {
-                Ok(_) => {}
-                Err(mut error) => {
-                    keramics_core::error_trace_add_frame!(
-                        error,
-                        format!("Unable to open segment file: {}", segment_file_name)
-                    );
-                    return Err(error);
-                }
-            }
             if segment_file.segment_number != segment_number {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported segment number: {} in segment file: {}",
@@ -672,6 +740,9 @@ impl EwfImage {
 
             segment_number += 1;
         }
+        self.segment_file_stem = name;
+        self.naming_schema = naming_schema;
+
         Ok(())
     }
 
-- 
2.43.0


From 99b295e818895decf32f75da95879b105d20f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 044/129] fix: EWF-S01 tables and chunk data stored in table
 sections

---
 keramics-formats/src/ewf/image.rs |  8 +++
 keramics-formats/src/ewf/table.rs | 98 ++++++++++++++++++++++---------
 2 files changed, 78 insertions(+), 28 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 8083549..59369af 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -60,6 +60,9 @@ pub struct EwfImage {
     /// Segment file cache.
     segment_file_cache: LruCache<u16, EwfFile>,
 
+    /// Value to indicate the table sections have a footer.
+    has_table_footer: bool,
+
     /// Number of chunks.
     number_of_chunks: u32,
 
@@ -113,6 +116,7 @@ impl EwfImage {
             segment_file_stem: String::new(),
             naming_schema: EwfNamingSchema::E01UpperCase,
             segment_file_cache: LruCache::new(16),
+            has_table_footer: true,
             number_of_chunks: 0,
             sectors_per_chunk: 0,
             bytes_per_sector: 0,
@@ -764,6 +768,8 @@ impl EwfImage {
         let mut safe_block_media_offset: u64 = *block_media_offset;
 
         let mut table: EwfTable = EwfTable::new();
+        table.has_footer = self.has_table_footer;
+
 
         match table.read_at_position(
             &data_stream,
@@ -942,6 +948,8 @@ impl EwfImage {
         }
         match section_header.size {
             170 => {
+                self.has_table_footer = false;
+
                 let mut volume: EwfS01Volume = EwfS01Volume::new();
 
                 match volume.read_at_position(&data_stream, SeekFrom::Start(file_offset + 76)) {
diff --git a/keramics-formats/src/ewf/table.rs b/keramics-formats/src/ewf/table.rs
index 4eedf34..220c71e 100644
--- a/keramics-formats/src/ewf/table.rs
+++ b/keramics-formats/src/ewf/table.rs
@@ -29,6 +29,9 @@ pub struct EwfTable {
     /// Base offset.
     pub base_offset: u64,
 
+    /// Value to indicate the table has a footer, which EWF-S01 does not use.
+    pub has_footer: bool,
+
     /// Entries.
     pub entries: Vec<EwfTableEntry>,
 }
@@ -39,6 +42,7 @@ impl EwfTable {
         Self {
             mediator: Mediator::current(),
             base_offset: 0,
+            has_footer: true,
             entries: Vec::new(),
         }
     }
@@ -65,32 +69,40 @@ impl EwfTable {
 
         let mut data_offset: usize = 24;
         let footer_offset: usize = 24 + (table_header.number_of_entries as usize * 4);
-        let footer_end_offset: usize = footer_offset + 4;
-
-        let mut table_footer: EwfTableFooter = EwfTableFooter::new();
+        let footer_end_offset: usize = footer_offset + if self.has_footer { 4 } else { 0 };
 
-        if self.mediator.debug_output {
-            self.mediator.debug_print(EwfTableFooter::debug_read_data(
-                &data[footer_offset..footer_end_offset],
-            ));
-        }
-        match table_footer.read_data(&data[footer_offset..footer_end_offset]) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
-                return Err(error);
-            }
-        }
-        let mut adler32_context: Adler32Context = Adler32Context::new(1);
-        adler32_context.update(&data[data_offset..footer_offset]);
-        let calculated_checksum: u32 = adler32_context.finalize();
-
-        if table_footer.checksum != calculated_checksum {
+        if footer_end_offset > data.len() {
             return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
-                table_footer.checksum, calculated_checksum
+                "Invalid number of entries: {} value out of bounds",
+                table_header.number_of_entries
             )));
         }
+        if self.has_footer {
+            let mut table_footer: EwfTableFooter = EwfTableFooter::new();
+
+            if self.mediator.debug_output {
+                self.mediator.debug_print(EwfTableFooter::debug_read_data(
+                    &data[footer_offset..footer_end_offset],
+                ));
+            }
+            match table_footer.read_data(&data[footer_offset..footer_end_offset]) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
+                    return Err(error);
+                }
+            }
+            let mut adler32_context: Adler32Context = Adler32Context::new(1);
+            adler32_context.update(&data[data_offset..footer_offset]);
+            let calculated_checksum: u32 = adler32_context.finalize();
+
+            if table_footer.checksum != calculated_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
+                    table_footer.checksum, calculated_checksum
+                )));
+            }
+        }
         for entry_index in 0..table_header.number_of_entries {
             let data_end_offset: usize = data_offset + 4;
 
@@ -125,21 +137,51 @@ impl EwfTable {
         data_size: u64,
         position: SeekFrom,
     ) -> Result<(), ErrorTrace> {
-        // Note that 16777216 is an arbitrary chosen limit.
-        if data_size < 28 || data_size > 16777216 {
+        if data_size < 28 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported table data size: {} value out of bounds",
                 data_size
             )));
         }
-        let mut data: Vec<u8> = vec![0; data_size as usize];
+        let mut header_data: [u8; 24] = [0; 24];
+
+        let offset: u64 = keramics_core::data_stream_read_exact_at_position!(
+            data_stream,
+            &mut header_data,
+            position
+        );
+        let mut table_header: EwfTableHeader = EwfTableHeader::new();
+
+        match table_header.read_data(&header_data) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to read table header");
+                return Err(error);
+            }
+        }
+        // Note that the table section can also contain the chunk data.
+        let mut table_size: u64 = 24 + (table_header.number_of_entries as u64) * 4;
+        if self.has_footer {
+            table_size += 4;
+        }
+        // Note that 16777216 is an arbitrary chosen limit.
+        if table_size > data_size || table_size > 16777216 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported table number of entries: {} value out of bounds",
+                table_header.number_of_entries
+            )));
+        }
+        let mut data: Vec<u8> = vec![0; table_size as usize];
 
-        let offset: u64 =
-            keramics_core::data_stream_read_exact_at_position!(data_stream, &mut data, position);
+        keramics_core::data_stream_read_exact_at_position!(
+            data_stream,
+            &mut data,
+            SeekFrom::Start(offset)
+        );
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "EwfTable data of size: {} at offset: {} (0x{:08x})\n",
-                data_size, offset, offset
+                table_size, offset, offset
             ));
             self.mediator.debug_print_data(&data, true);
         }
-- 
2.43.0


From 83ade69b06d3cb7edf3f28c37803ded7f710aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 045/129] fix: EWF media of more than 2^32 sectors

---
 keramics-formats/src/ewf/image.rs  | 17 ++++++++++++++---
 keramics-formats/src/ewf/volume.rs |  6 +++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 59369af..6a474c3 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -73,7 +73,7 @@ pub struct EwfImage {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Block (or chunk) size.
     block_size: u32,
@@ -962,7 +962,7 @@ impl EwfImage {
                 self.number_of_chunks = volume.number_of_chunks;
                 self.sectors_per_chunk = volume.sectors_per_chunk;
                 self.bytes_per_sector = volume.bytes_per_sector;
-                self.number_of_sectors = volume.number_of_sectors;
+                self.number_of_sectors = volume.number_of_sectors as u64;
             }
             1128 => {
                 let mut volume: EwfE01Volume = EwfE01Volume::new();
@@ -998,7 +998,18 @@ impl EwfImage {
             }
         }
         self.block_size = self.sectors_per_chunk * self.bytes_per_sector;
-        self.media_size = (self.number_of_sectors as u64) * (self.bytes_per_sector as u64);
+        self.media_size = match self
+            .number_of_sectors
+            .checked_mul(self.bytes_per_sector as u64)
+        {
+            Some(media_size) => media_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported number of sectors: {} value out of bounds",
+                    self.number_of_sectors
+                )));
+            }
+        };
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
 
diff --git a/keramics-formats/src/ewf/volume.rs b/keramics-formats/src/ewf/volume.rs
index c56d4c7..e9cf842 100644
--- a/keramics-formats/src/ewf/volume.rs
+++ b/keramics-formats/src/ewf/volume.rs
@@ -14,7 +14,7 @@
 use keramics_checksums::Adler32Context;
 use keramics_core::ErrorTrace;
 use keramics_layout_map::LayoutMap;
-use keramics_types::{Uuid, bytes_to_u32_le};
+use keramics_types::{Uuid, bytes_to_u32_le, bytes_to_u64_le};
 
 #[derive(LayoutMap)]
 #[layout_map(
@@ -61,7 +61,7 @@ pub struct EwfE01Volume {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Media flags.
     pub media_flags: u8,
@@ -115,7 +115,7 @@ impl EwfE01Volume {
         self.number_of_chunks = bytes_to_u32_le!(data, 4);
         self.sectors_per_chunk = bytes_to_u32_le!(data, 8);
         self.bytes_per_sector = bytes_to_u32_le!(data, 12);
-        self.number_of_sectors = bytes_to_u32_le!(data, 16);
+        self.number_of_sectors = bytes_to_u64_le!(data, 16);
         self.media_flags = data[36];
         self.compression_level = data[52];
         self.error_granularity = bytes_to_u32_le!(data, 56);
-- 
2.43.0


From 6fc9756033464db74db9a7a2033362188f4acb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 046/129] fix: extension of a file name with non-ASCII
 characters

---
 keramics-formats/src/path_component.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index 0e4536e..9694e29 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -30,13 +30,12 @@ impl PathComponent {
                 if string.is_empty() {
                     None
                 } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_index: usize = string.len() - value_index;
-                            Some(PathComponent::String(string[string_index..].to_string()))
+                    match string.rfind('.') {
+                        // Note that a leading dot does not start an extension.
+                        Some(value_index) if value_index > 0 => {
+                            Some(PathComponent::String(string[value_index + 1..].to_string()))
                         }
-                        None => None,
+                        _ => None,
                     }
                 }
             }
@@ -51,13 +50,12 @@ impl PathComponent {
                 if string.is_empty() {
                     None
                 } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_size: usize = string.len() - value_index - 1;
-                            Some(PathComponent::String(string[0..string_size].to_string()))
+                    match string.rfind('.') {
+                        // Note that a leading dot does not start an extension.
+                        Some(value_index) if value_index > 0 => {
+                            Some(PathComponent::String(string[..value_index].to_string()))
                         }
-                        None => Some(PathComponent::String(string.clone())),
+                        _ => Some(PathComponent::String(string.clone())),
                     }
                 }
             }
-- 
2.43.0


From 791c75a034bd868e287b5b615d1bac0a07c29b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 047/129] fix: EWF header data that is compressed by more than
 a factor 4

---
 keramics-formats/src/ewf/header.rs  | 6 +++---
 keramics-formats/src/ewf/header2.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ewf/header.rs b/keramics-formats/src/ewf/header.rs
index ca8ccfc..14e7816 100644
--- a/keramics-formats/src/ewf/header.rs
+++ b/keramics-formats/src/ewf/header.rs
@@ -44,9 +44,9 @@ impl EwfHeader {
     ) -> Result<(), ErrorTrace> {
         let data_size: usize = data.len();
 
-        // On average the uncompressed header will be more than twice as large
-        // as the compressed header.
-        let mut header_data: Vec<u8> = vec![0; data_size * 4];
+        // Note that deflate can compress data up to a factor 1032 and that
+        // 16777216 is an arbitrary chosen limit.
+        let mut header_data: Vec<u8> = vec![0; (data_size * 1032).min(16777216)];
 
         let mut zlib_context: ZlibContext = ZlibContext::new();
 
diff --git a/keramics-formats/src/ewf/header2.rs b/keramics-formats/src/ewf/header2.rs
index a8530d2..8e08ff3 100644
--- a/keramics-formats/src/ewf/header2.rs
+++ b/keramics-formats/src/ewf/header2.rs
@@ -48,7 +48,7 @@ impl EwfHeader2 {
         // On average the uncompressed header will be more than twice as large
         // as the compressed header. Note that the uncompressed header size
         // should be a multitude of 2 bytes.
-        let mut header2_data: Vec<u8> = vec![0; data_size * 4];
+        let mut header2_data: Vec<u8> = vec![0; (data_size * 1032).min(16777216)];
 
         let mut zlib_context: ZlibContext = ZlibContext::new();
 
-- 
2.43.0


From 1cb1975698db8225ef88d7b287aa56dd37e17a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 048/129] fix: overflow of an EWF header2 date value

---
 keramics-formats/src/ewf/object_storage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ewf/object_storage.rs b/keramics-formats/src/ewf/object_storage.rs
index a1c227a..d2eb1cd 100644
--- a/keramics-formats/src/ewf/object_storage.rs
+++ b/keramics-formats/src/ewf/object_storage.rs
@@ -129,12 +129,12 @@ impl<'a> EwfUtf16ObjectStorage<'a> {
         let mut timestamp: i32 = 0;
 
         for value_16bit in value.iter() {
-            timestamp *= 10;
-
             if *value_16bit < 0x0030 || *value_16bit > 0x0039 {
                 return None;
             }
-            timestamp += *value_16bit as i32 - 0x0030;
+            timestamp = timestamp
+                .checked_mul(10)?
+                .checked_add(*value_16bit as i32 - 0x0030)?;
         }
         Some(timestamp)
     }
-- 
2.43.0


From 0d05f6faa210616fa6e350f07276161a449082f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 049/129] fix: verify the checksum of an uncompressed EWF chunk

---
 keramics-formats/src/ewf/image.rs | 87 ++++++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 18 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 6a474c3..b7ad87c 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -14,10 +14,11 @@
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
+use keramics_checksums::Adler32Context;
 use keramics_compression::ZlibContext;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
-use keramics_types::Uuid;
+use keramics_types::{Uuid, bytes_to_u32_le};
 
 use crate::block_tree::BlockTree;
 use crate::fake_file_resolver::FakeFileResolver;
@@ -413,26 +414,76 @@ impl EwfImage {
                     range_read_size
                 }
                 EwfBlockRangeType::InFile => {
-                    // TODO: read full chunk
-                    let chunk_offset: u64 = block_range.data_offset + range_relative_offset;
+                    let range_data_offset: usize = range_relative_offset as usize;
+                    let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    match segment_file.read_exact_at_position(
-                        &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(chunk_offset),
-                    ) {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                format!(
-                                    "Unable to read uncompressed chunk from segment file: {} at offset: {} (0x{:08x})",
-                                    block_range.segment_number, chunk_offset, chunk_offset
-                                )
-                            );
-                            return Err(error);
+                    if !self.block_cache.contains(&block_range.media_offset) {
+                        if block_range.data_size < 4 {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Invalid uncompressed chunk size: {} value out of bounds",
+                                block_range.data_size
+                            )));
                         }
+                        // Note that the last chunk can be smaller than the block size.
+                        let chunk_size: usize =
+                            (block_range.data_size - 4).min(self.block_size) as usize;
+
+                        let mut block_data: Vec<u8> = vec![0; chunk_size + 4];
+
+                        match segment_file.read_exact_at_position(
+                            &mut block_data,
+                            SeekFrom::Start(block_range.data_offset),
+                        ) {
+                            Ok(_) => {}
+                            Err(mut error) => {
+                                keramics_core::error_trace_add_frame!(
+                                    error,
+                                    format!(
+                                        "Unable to read uncompressed chunk from segment file: {} at offset: {} (0x{:08x})",
+                                        block_range.segment_number,
+                                        block_range.data_offset,
+                                        block_range.data_offset
+                                    )
+                                );
+                                return Err(error);
+                            }
+                        }
+                        let stored_checksum: u32 = bytes_to_u32_le!(block_data, chunk_size);
+
+                        let mut adler32_context: Adler32Context = Adler32Context::new(1);
+                        adler32_context.update(&block_data[..chunk_size]);
+                        let calculated_checksum: u32 = adler32_context.finalize();
+
+                        if stored_checksum != calculated_checksum {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums of chunk at offset: {} (0x{:08x})",
+                                stored_checksum,
+                                calculated_checksum,
+                                block_range.media_offset,
+                                block_range.media_offset
+                            )));
+                        }
+                        block_data.truncate(chunk_size);
+
+                        self.block_cache.insert(block_range.media_offset, block_data);
+                    }
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
+                    {
+                        Some(data) => data,
+                        None => {
+                            return Err(keramics_core::error_trace_new!(
+                                "Unable to retrieve data from cache"
+                            ));
+                        }
+                    };
+                    if range_data_end_offset > range_data.len() {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Invalid uncompressed chunk size: {} value out of bounds",
+                            range_data.len()
+                        )));
                     }
-                    // TODO: calculate and compare checksum
+                    data[data_offset..data_end_offset]
+                        .copy_from_slice(&range_data[range_data_offset..range_data_end_offset]);
 
                     range_read_size
                 }
-- 
2.43.0


From 8912defe8bcd5184907fcb7f6ec86ad30740e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 050/129] fix: invalid EWF volume, table, error2 and section
 sizes

---
 keramics-formats/src/ewf/error2.rs |  7 ++++
 keramics-formats/src/ewf/file.rs   | 10 ++++-
 keramics-formats/src/ewf/image.rs  | 60 ++++++++++++++++++++++++++----
 3 files changed, 68 insertions(+), 9 deletions(-)

diff --git a/keramics-formats/src/ewf/error2.rs b/keramics-formats/src/ewf/error2.rs
index cc4e9eb..4701cbc 100644
--- a/keramics-formats/src/ewf/error2.rs
+++ b/keramics-formats/src/ewf/error2.rs
@@ -61,6 +61,13 @@ impl EwfError2 {
         let footer_offset: usize = 520 + (error2_header.number_of_entries as usize * 8);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                error2_header.number_of_entries
+            )));
+        }
+
         let mut error2_footer: EwfError2Footer = EwfError2Footer::new();
 
         if self.mediator.debug_output {
diff --git a/keramics-formats/src/ewf/file.rs b/keramics-formats/src/ewf/file.rs
index 8d7edb2..2ec8701 100644
--- a/keramics-formats/src/ewf/file.rs
+++ b/keramics-formats/src/ewf/file.rs
@@ -151,8 +151,14 @@ impl EwfFile {
 
             self.sections.push(section_header);
 
-            file_offset += section_size;
-
+            file_offset = match file_offset.checked_add(section_size) {
+                Some(offset) => offset,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Unsupported section size value out of bounds"
+                    ));
+                }
+            };
             if is_last_section {
                 break;
             }
diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index b7ad87c..bad0a01 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -876,18 +876,38 @@ impl EwfImage {
                         table_entry_index, chunk_data_offset, next_chunk_data_offset
                     ));
                 }
-                // TODO: handle corrupted table entry
-                todo!();
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported table entry: {} offset: {} larger than next offset: {}",
+                    table_entry_index, chunk_data_offset, next_chunk_data_offset
+                )));
             };
             let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
                 EwfBlockRangeType::Compressed
             } else {
                 EwfBlockRangeType::InFile
             };
+            // Note that the data of a chunk should not be substantially larger than the
+            // block size.
+            if (chunk_data_size as u64) > (self.block_size as u64) * 2 + 4096 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported table entry: {} chunk data size: {} value out of bounds",
+                    table_entry_index, chunk_data_size
+                )));
+            }
+            let absolute_chunk_data_offset: u64 =
+                match table.base_offset.checked_add(chunk_data_offset as u64) {
+                    Some(offset) => offset,
+                    None => {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Unsupported table base offset: {} value out of bounds",
+                            table.base_offset
+                        )));
+                    }
+                };
             let block_range: EwfBlockRange = EwfBlockRange::new(
                 safe_block_media_offset,
                 segment_file.segment_number,
-                table.base_offset + (chunk_data_offset as u64),
+                absolute_chunk_data_offset,
                 chunk_data_size,
                 block_range_type,
             );
@@ -935,7 +955,16 @@ impl EwfImage {
         // is where it starts. Hence the size of the last chunk is determined
         // by subtracting the last offset from the offset of the next section.
 
-        let last_chunk_data_offset: u64 = table.base_offset + (chunk_data_offset as u64);
+        let last_chunk_data_offset: u64 =
+            match table.base_offset.checked_add(chunk_data_offset as u64) {
+                Some(offset) => offset,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Unsupported table base offset: {} value out of bounds",
+                        table.base_offset
+                    )));
+                }
+            };
 
         let last_chunk_data_end_offset: u64 = match last_sectors_section_header {
             // The chunks are stored in the sectors section.
@@ -943,8 +972,16 @@ impl EwfImage {
             // The chunks are stored in the table section.
             None => section_header.next_offset,
         };
-        let last_chunk_data_size: u32 =
-            (last_chunk_data_end_offset - last_chunk_data_offset) as u32;
+        if last_chunk_data_offset >= last_chunk_data_end_offset {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported last table entry offset: {} value out of bounds",
+                last_chunk_data_offset
+            )));
+        }
+        // Note that the last chunk can be followed by other data.
+        let last_chunk_data_size: u32 = (last_chunk_data_end_offset - last_chunk_data_offset)
+            .min((self.block_size as u64) * 2 + 4096)
+            as u32;
 
         let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
             EwfBlockRangeType::Compressed
@@ -1048,7 +1085,16 @@ impl EwfImage {
                 )));
             }
         }
-        self.block_size = self.sectors_per_chunk * self.bytes_per_sector;
+        // Note that 134217728 is an arbitrary chosen limit.
+        let block_size: u64 = (self.sectors_per_chunk as u64) * (self.bytes_per_sector as u64);
+
+        if block_size == 0 || block_size > 134217728 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported block size: {} value out of bounds",
+                block_size
+            )));
+        }
+        self.block_size = block_size as u32;
         self.media_size = match self
             .number_of_sectors
             .checked_mul(self.bytes_per_sector as u64)
-- 
2.43.0


From 00e4a4ac200b8f82fc5da1cbfcb6a17531bac5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 051/129] fix: offset of logical MBR partitions after the first

---
 keramics-formats/src/mbr/partition_entry.rs |  4 ++++
 keramics-formats/src/mbr/volume_system.rs   | 10 +++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/mbr/partition_entry.rs b/keramics-formats/src/mbr/partition_entry.rs
index 59b4a96..3355870 100644
--- a/keramics-formats/src/mbr/partition_entry.rs
+++ b/keramics-formats/src/mbr/partition_entry.rs
@@ -44,6 +44,9 @@ pub struct MbrPartitionEntry {
 
     /// The total number of sectors in the partition.
     pub number_of_sectors: u32,
+
+    /// The offset of the boot record the start LBA is relative to.
+    pub boot_record_offset: u64,
 }
 
 impl MbrPartitionEntry {
@@ -55,6 +58,7 @@ impl MbrPartitionEntry {
             partition_type: 0,
             start_address_lba: 0,
             number_of_sectors: 0,
+            boot_record_offset: 0,
         }
     }
 
diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index 720d932..ca4b66a 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -76,14 +76,11 @@ impl MbrVolumeSystem {
                         "Unsupported bytes per sector: 0"
                     ));
                 }
-                let mut partition_offset: u64 =
-                    partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64;
+                let partition_offset: u64 = partition_entry.boot_record_offset
+                    + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
                 let partition_size: u64 =
                     partition_entry.number_of_sectors as u64 * self.bytes_per_sector as u64;
 
-                if partition_entry.index >= 4 {
-                    partition_offset += self.first_extended_boot_record_offset;
-                }
                 let mut partition: MbrPartition = MbrPartition::new(
                     partition_entry.index,
                     partition_offset,
@@ -273,6 +270,9 @@ impl MbrVolumeSystem {
                 extended_boot_record_offset = self.first_extended_boot_record_offset
                     + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
             } else if partition_entry.partition_type != 0 {
+                // Note that the start of a logical partition is relative to the extended
+                // boot record it is defined in.
+                partition_entry.boot_record_offset = offset;
                 partition_entry.index = first_entry_index + entry_index;
                 self.partition_entries.push(partition_entry);
             }
-- 
2.43.0


From 897b524ea61cdfed65f4283ce65157e90222f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 052/129] fix: extended boot record that links to the next with
 partition type 15

---
 keramics-formats/src/mbr/volume_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index ca4b66a..f90f353 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -261,7 +261,7 @@ impl MbrVolumeSystem {
             if partition_entry.partition_type == 0 {
                 continue;
             }
-            if partition_entry.partition_type == 5 {
+            if partition_entry.partition_type == 5 || partition_entry.partition_type == 15 {
                 if extended_boot_record_offset != 0 {
                     return Err(keramics_core::error_trace_new!(
                         "More than 1 extended partition entry per boot record is not supported"
-- 
2.43.0


From 325a311d8773b3eb8c8820b7f0f74f478e1b91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 053/129] fix: MBR bytes per sector after a short read of the
 boot signature

---
 keramics-formats/src/mbr/volume_system.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index f90f353..be6a055 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -143,13 +143,17 @@ impl MbrVolumeSystem {
         if self.bytes_per_sector == 0 {
             for partition_entry in master_boot_record.partition_entries.iter() {
                 if partition_entry.partition_type == 5 || partition_entry.partition_type == 15 {
+                    let data_stream_size: u64 = keramics_core::data_stream_get_size!(data_stream);
                     let mut boot_signature: [u8; 2] = [0; 2];
 
                     for bytes_per_sector in SUPPORTED_BYTES_PER_SECTOR.iter() {
                         let offset: u64 =
                             partition_entry.start_address_lba as u64 * *bytes_per_sector as u64;
 
-                        keramics_core::data_stream_read_at_position!(
+                        if offset + 512 > data_stream_size {
+                            break;
+                        }
+                        keramics_core::data_stream_read_exact_at_position!(
                             data_stream,
                             &mut boot_signature,
                             SeekFrom::Start(offset + 510)
-- 
2.43.0


From c065f937450446ef3a0d54282b77a8d4763b915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 054/129] fix: MBR bytes per sector of a disk with
 unpartitioned space at its end

---
 keramics-formats/src/mbr/volume_system.rs | 66 ++++++++++++++++-------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index be6a055..2aa8206 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -204,27 +204,17 @@ impl MbrVolumeSystem {
                 }
             }
         }
-        if self.bytes_per_sector == 0 {
-            match self
-                .partition_entries
-                .iter()
-                .max_by_key(|element| element.start_address_lba)
-            {
-                Some(last_partition_entry) => {
-                    let data_stream_size: u64 = keramics_core::data_stream_get_size!(data_stream);
-
-                    let end_address_lba: u64 = (last_partition_entry.start_address_lba as u64)
-                        + (last_partition_entry.number_of_sectors as u64);
-
-                    for bytes_per_sector in SUPPORTED_BYTES_PER_SECTOR.iter() {
-                        if end_address_lba > data_stream_size / (*bytes_per_sector as u64) {
-                            break;
-                        }
-                        self.bytes_per_sector = *bytes_per_sector;
-                    }
+        if self.bytes_per_sector == 0 && !self.partition_entries.is_empty() {
+            self.bytes_per_sector = match self.read_partition_boot_signatures(data_stream) {
+                Ok(result) => result.unwrap_or(SUPPORTED_BYTES_PER_SECTOR[0]),
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read partition boot signatures"
+                    );
+                    return Err(error);
                 }
-                None => {}
-            }
+            };
         }
         self.disk_identity = master_boot_record.disk_identity;
 
@@ -301,6 +291,42 @@ impl MbrVolumeSystem {
         Ok(())
     }
 
+    /// Determines the bytes per sector based on the boot signatures of partitions with a FAT or
+    /// NTFS partition type.
+    fn read_partition_boot_signatures(
+        &self,
+        data_stream: &DataStreamReference,
+    ) -> Result<Option<u16>, ErrorTrace> {
+        let data_stream_size: u64 = keramics_core::data_stream_get_size!(data_stream);
+
+        let mut boot_signature: [u8; 2] = [0; 2];
+
+        for bytes_per_sector in SUPPORTED_BYTES_PER_SECTOR.iter() {
+            for partition_entry in self.partition_entries.iter() {
+                match partition_entry.partition_type {
+                    0x01 | 0x04 | 0x06 | 0x07 | 0x0b | 0x0c | 0x0e | 0x11 | 0x14 | 0x16 | 0x17
+                    | 0x1b | 0x1c | 0x1e => {}
+                    _ => continue,
+                }
+                let offset: u64 =
+                    partition_entry.start_address_lba as u64 * *bytes_per_sector as u64;
+
+                if partition_entry.start_address_lba == 0 || offset + 512 > data_stream_size {
+                    continue;
+                }
+                keramics_core::data_stream_read_exact_at_position!(
+                    data_stream,
+                    &mut boot_signature,
+                    SeekFrom::Start(offset + 510)
+                );
+                if boot_signature == MBR_BOOT_SIGNATURE {
+                    return Ok(Some(*bytes_per_sector));
+                }
+            }
+        }
+        Ok(None)
+    }
+
     /// Sets the number of bytes per sector.
     pub fn set_bytes_per_sector(&mut self, bytes_per_sector: u16) -> Result<(), ErrorTrace> {
         if !SUPPORTED_BYTES_PER_SECTOR.contains(&bytes_per_sector) {
-- 
2.43.0


From afcae931d1a218bc53c536c3d03f3cecf8f8c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 055/129] fix: GPT with a damaged primary or backup header

---
 keramics-formats/src/gpt/volume_system.rs | 196 ++++++++++++++++------
 1 file changed, 148 insertions(+), 48 deletions(-)

diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index 4800daf..82e0a23 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -132,13 +132,87 @@ impl GptVolumeSystem {
         &mut self,
         data_stream: &DataStreamReference,
     ) -> Result<(), ErrorTrace> {
+        let primary_header: Option<GptPartitionTableHeader> =
+            match self.read_primary_partition_table_header(data_stream) {
+                Ok(partition_table_header) => Some(partition_table_header),
+                Err(error) => {
+                    if self.mediator.debug_output {
+                        self.mediator.debug_print(format!(
+                            "Unable to read partition table header with error: {}\n",
+                            error
+                        ));
+                    }
+                    None
+                }
+            };
+
+        let backup_header: Result<GptPartitionTableHeader, ErrorTrace> =
+            self.read_backup_partition_table_header(data_stream, primary_header.as_ref());
+
+        // TODO: compare primary with backup partition table header.
+        let (partition_table_header, partition_entries) = match primary_header {
+            Some(partition_table_header) => {
+                match self.read_partition_entries(data_stream, &partition_table_header) {
+                    Ok(partition_entries) => (partition_table_header, partition_entries),
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to read partition table entries"
+                        );
+                        match backup_header {
+                            Ok(backup_header) => {
+                                match self.read_partition_entries(data_stream, &backup_header) {
+                                    Ok(partition_entries) => (backup_header, partition_entries),
+                                    Err(_) => return Err(error),
+                                }
+                            }
+                            Err(_) => return Err(error),
+                        }
+                    }
+                }
+            }
+            None => match backup_header {
+                Ok(backup_header) => {
+                    match self.read_partition_entries(data_stream, &backup_header) {
+                        Ok(partition_entries) => (backup_header, partition_entries),
+                        Err(mut error) => {
+                            keramics_core::error_trace_add_frame!(
+                                error,
+                                "Unable to read backup partition table entries"
+                            );
+                            return Err(error);
+                        }
+                    }
+                }
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read primary and backup partition table header"
+                    );
+                    return Err(error);
+                }
+            },
+        };
+        if !partition_table_header.disk_identifier.is_nil() {
+            self.disk_identifier = partition_table_header.disk_identifier;
+        }
+        self.partition_entries = partition_entries;
+
+        Ok(())
+    }
+
+    /// Reads the primary partition table header.
+    fn read_primary_partition_table_header(
+        &mut self,
+        data_stream: &DataStreamReference,
+    ) -> Result<GptPartitionTableHeader, ErrorTrace> {
         let mut partition_table_header = GptPartitionTableHeader::new();
 
         if self.bytes_per_sector != 0 {
             match partition_table_header
                 .read_at_position(data_stream, SeekFrom::Start(self.bytes_per_sector as u64))
             {
-                Ok(_) => {}
+                Ok(_) => return Ok(partition_table_header),
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
                         error,
@@ -147,61 +221,87 @@ impl GptVolumeSystem {
                     return Err(error);
                 }
             }
-        } else {
-            for bytes_per_sector in SUPPORTED_BYTES_PER_SECTOR.iter() {
-                match partition_table_header
-                    .read_at_position(data_stream, SeekFrom::Start(*bytes_per_sector as u64))
-                {
-                    Ok(_) => self.bytes_per_sector = *bytes_per_sector,
-                    Err(_) => {}
-                };
-                if self.bytes_per_sector != 0 {
-                    break;
+        }
+        for bytes_per_sector in SUPPORTED_BYTES_PER_SECTOR.iter() {
+            match partition_table_header
+                .read_at_position(data_stream, SeekFrom::Start(*bytes_per_sector as u64))
+            {
+                Ok(_) => {
+                    self.bytes_per_sector = *bytes_per_sector;
+                    return Ok(partition_table_header);
                 }
-            }
-            if self.bytes_per_sector == 0 {
-                return Err(keramics_core::error_trace_new!(
-                    "Unsupported bytes per sector: 0"
-                ));
-            }
+                Err(_) => {}
+            };
         }
-        let backup_partition_table_offset: u64 =
-            partition_table_header.backup_header_block_number * self.bytes_per_sector as u64;
+        Err(keramics_core::error_trace_new!(
+            "Unsupported bytes per sector: 0"
+        ))
+    }
 
-        let mut backup_partition_table_header = GptPartitionTableHeader::new();
+    /// Reads the backup partition table header.
+    fn read_backup_partition_table_header(
+        &mut self,
+        data_stream: &DataStreamReference,
+        primary_header: Option<&GptPartitionTableHeader>,
+    ) -> Result<GptPartitionTableHeader, ErrorTrace> {
+        let mut partition_table_header = GptPartitionTableHeader::new();
 
-        if backup_partition_table_offset > 0 {
-            match backup_partition_table_header
-                .read_at_position(data_stream, SeekFrom::Start(backup_partition_table_offset))
+        if let Some(primary_header) = primary_header {
+            match primary_header
+                .backup_header_block_number
+                .checked_mul(self.bytes_per_sector as u64)
             {
-                Ok(read_count) => read_count,
-                Err(_) => {
-                    if self.mediator.debug_output {
-                        self.mediator.debug_print(format!(
-                            "Invalid backup partition table block number falling back to last block"
-                        ));
-                    }
-                    match backup_partition_table_header.read_at_position(
-                        data_stream,
-                        SeekFrom::End(-(self.bytes_per_sector as i64)),
-                    ) {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                "Unable to read backup partition table"
-                            );
-                            return Err(error);
+                Some(offset) if offset > 0 => {
+                    match partition_table_header
+                        .read_at_position(data_stream, SeekFrom::Start(offset))
+                    {
+                        Ok(_) => return Ok(partition_table_header),
+                        Err(_) => {
+                            if self.mediator.debug_output {
+                                self.mediator.debug_print(format!(
+                                    "Invalid backup partition table block number falling back to last block"
+                                ));
+                            }
                         }
                     }
                 }
-            };
+                _ => {}
+            }
         }
-        // TODO: compare primary with backup partition table header.
-
-        if !partition_table_header.disk_identifier.is_nil() {
-            self.disk_identifier = partition_table_header.disk_identifier;
+        let bytes_per_sector_values: Vec<u16> = match self.bytes_per_sector {
+            0 => SUPPORTED_BYTES_PER_SECTOR.to_vec(),
+            bytes_per_sector => vec![bytes_per_sector],
+        };
+        let data_stream_size: u64 = keramics_core::data_stream_get_size!(data_stream);
+
+        for bytes_per_sector in bytes_per_sector_values.iter() {
+            if data_stream_size < *bytes_per_sector as u64 {
+                continue;
+            }
+            match partition_table_header.read_at_position(
+                data_stream,
+                SeekFrom::Start(data_stream_size - *bytes_per_sector as u64),
+            ) {
+                Ok(_) => {
+                    self.bytes_per_sector = *bytes_per_sector;
+                    return Ok(partition_table_header);
+                }
+                Err(_) => {}
+            }
         }
+        Err(keramics_core::error_trace_new!(
+            "Unable to read backup partition table header"
+        ))
+    }
+
+    /// Reads the partition entries.
+    fn read_partition_entries(
+        &self,
+        data_stream: &DataStreamReference,
+        partition_table_header: &GptPartitionTableHeader,
+    ) -> Result<Vec<GptPartitionEntry>, ErrorTrace> {
+        let mut partition_entries: Vec<GptPartitionEntry> = Vec::new();
+
         if partition_table_header.entry_data_size != 128 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported partition table entry data size: {}",
@@ -267,7 +367,7 @@ impl GptVolumeSystem {
                         partition_table_header.area_end_block_number,
                     )));
                 }
-                self.partition_entries.push(partition_entry);
+                partition_entries.push(partition_entry);
             }
         }
         let calculated_checksum: u32 = crc32_context.finalize();
@@ -280,7 +380,7 @@ impl GptVolumeSystem {
                 partition_table_header.entries_data_checksum, calculated_checksum
             )));
         }
-        Ok(())
+        Ok(partition_entries)
     }
 
     /// Sets the number of bytes per sector.
-- 
2.43.0


From 20ca5a0eb1961fcaf12fac790ec8373c065f14fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 056/129] fix: GPT with more than 32 blocks of partition
 entries

---
 keramics-formats/src/gpt/volume_system.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index 82e0a23..6290055 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -308,13 +308,11 @@ impl GptVolumeSystem {
                 partition_table_header.entry_data_size
             )));
         }
-        let maximum_number_of_entries: u32 =
-            (32 * self.bytes_per_sector as u32) / partition_table_header.entry_data_size;
-
-        if partition_table_header.number_of_entries > maximum_number_of_entries {
+        // Note that 65536 is an arbitrary chosen limit.
+        if partition_table_header.number_of_entries > 65536 {
             return Err(keramics_core::error_trace_new!(format!(
-                "Number of partition entries: {} value out of bounds: {}",
-                partition_table_header.number_of_entries, maximum_number_of_entries
+                "Number of partition entries: {} value out of bounds",
+                partition_table_header.number_of_entries
             )));
         }
         let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0xedb88320, 0);
-- 
2.43.0


From b8ec99f430e96e57bfa143f755d9c19214f54435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 057/129] fix: overflow of a GPT block number

---
 keramics-formats/src/gpt/volume_system.rs | 24 ++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index 6290055..b0239f9 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -73,11 +73,12 @@ impl GptVolumeSystem {
                         return Err(keramics_core::error_trace_new!("Missing data stream"));
                     }
                 };
+                // Note that the end offset is checked when the partition entries are read.
                 let partition_offset: u64 =
-                    partition_entry.start_block_number as u64 * self.bytes_per_sector as u64;
+                    partition_entry.start_block_number * self.bytes_per_sector as u64;
                 let partition_size: u64 = (partition_entry.end_block_number
                     - partition_entry.start_block_number
-                    + 1) as u64
+                    + 1)
                     * self.bytes_per_sector as u64;
 
                 let mut partition: GptPartition = GptPartition::new(
@@ -317,8 +318,18 @@ impl GptVolumeSystem {
         }
         let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0xedb88320, 0);
 
-        let mut entry_data_offset: u64 =
-            partition_table_header.entries_start_block_number * self.bytes_per_sector as u64;
+        let mut entry_data_offset: u64 = match partition_table_header
+            .entries_start_block_number
+            .checked_mul(self.bytes_per_sector as u64)
+        {
+            Some(offset) if offset <= i64::MAX as u64 => offset,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Partition entries start block number: {} value out of bounds",
+                    partition_table_header.entries_start_block_number
+                )));
+            }
+        };
         let mut entry_data: Vec<u8> = vec![0; partition_table_header.entry_data_size as usize];
 
         for entry_index in 0..partition_table_header.number_of_entries {
@@ -356,7 +367,10 @@ impl GptVolumeSystem {
                         partition_table_header.area_end_block_number,
                     )));
                 }
-                if partition_entry.end_block_number < partition_entry.start_block_number {
+                if partition_entry.end_block_number < partition_entry.start_block_number
+                    || partition_entry.end_block_number
+                        >= (i64::MAX as u64) / self.bytes_per_sector as u64
+                {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Partition entry: {} end block number: {} value out of bounds: {} - {}",
                         entry_index,
-- 
2.43.0


From 1dead926b928a07a95dfa414e242886b1b130ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 058/129] fix: GPT checksum of 0 was not verified

---
 keramics-formats/src/gpt/partition_table_header.rs | 2 +-
 keramics-formats/src/gpt/volume_system.rs          | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/gpt/partition_table_header.rs b/keramics-formats/src/gpt/partition_table_header.rs
index e0ac775..3e214a2 100644
--- a/keramics-formats/src/gpt/partition_table_header.rs
+++ b/keramics-formats/src/gpt/partition_table_header.rs
@@ -105,7 +105,7 @@ impl GptPartitionTableHeader {
 
         let calculated_checksum: u32 = crc32_context.finalize();
 
-        if stored_checksum != 0 && stored_checksum != calculated_checksum {
+        if stored_checksum != calculated_checksum {
             return Err(keramics_core::error_trace_new!(format!(
                 "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
                 stored_checksum, calculated_checksum
diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index b0239f9..260f17f 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -384,9 +384,7 @@ impl GptVolumeSystem {
         }
         let calculated_checksum: u32 = crc32_context.finalize();
 
-        if partition_table_header.entries_data_checksum != 0
-            && partition_table_header.entries_data_checksum != calculated_checksum
-        {
+        if partition_table_header.entries_data_checksum != calculated_checksum {
             return Err(keramics_core::error_trace_new!(format!(
                 "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
                 partition_table_header.entries_data_checksum, calculated_checksum
-- 
2.43.0


From ba30621cc683fa9989a048e6277333b79be87e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 059/129] fix: fat: leave the root directory out of the data
 area when determining the format

---
 keramics-formats/src/fat/file_system.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index b0f846a..1cc5f30 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -368,12 +368,24 @@ impl FatFileSystem {
         if !boot_record.volume_label.is_empty() {
             self.volume_label = Some(boot_record.volume_label)
         }
-        let mut number_of_clusters: u64 = (boot_record.number_of_sectors as u64)
-            - (boot_record.number_of_reserved_sectors as u64);
-        number_of_clusters -= (boot_record.number_of_allocation_tables as u64)
-            * (boot_record.allocation_table_size as u64);
-        number_of_clusters /= boot_record.sectors_per_cluster_block as u64;
-
+        let root_directory_size: u64 = (boot_record.number_of_root_directory_entries as u64) * 32;
+        let number_of_metadata_sectors: u64 = (boot_record.number_of_reserved_sectors as u64)
+            + (boot_record.number_of_allocation_tables as u64)
+                * (boot_record.allocation_table_size as u64)
+            + root_directory_size.div_ceil(boot_record.bytes_per_sector as u64);
+
+        let number_of_clusters: u64 = match (boot_record.number_of_sectors as u64)
+            .checked_sub(number_of_metadata_sectors)
+        {
+            Some(number_of_sectors) => {
+                number_of_sectors / (boot_record.sectors_per_cluster_block as u64)
+            }
+            None => {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid number of sectors value out of bounds"
+                ));
+            }
+        };
         self.format =
             if self.root_directory_cluster_block_number != 0 || number_of_clusters >= 65525 {
                 FatFormat::Fat32
-- 
2.43.0


From 9e5aea5e61db7c68bb0a63f30d90db63271feda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 060/129] fix: fat: the last two clusters have an allocation
 table entry

---
 keramics-formats/src/fat/block_allocation_table.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index 30da809..42465ce 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -30,7 +30,7 @@ pub struct FatBlockAllocationTable {
     /// Offset.
     offset: u64,
 
-    /// Number of entries.
+    /// Number of entries, without the first 2 (reserved) entries.
     number_of_entries: u32,
 
     /// First cluster offset.
@@ -74,7 +74,8 @@ impl FatBlockAllocationTable {
         data_stream: &DataStreamReference,
         entry_index: u32,
     ) -> Result<u32, ErrorTrace> {
-        if entry_index >= self.number_of_entries {
+        // The first 2 entries in the table do not represent a cluster block.
+        if (entry_index as u64) >= (self.number_of_entries as u64) + 2 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported entry index: {} value out of bounds",
                 entry_index
-- 
2.43.0


From e448891025fd8d11de8947b946476028a3337fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 061/129] fix: fat: ignore the reserved bits of a FAT-32
 allocation table entry

---
 keramics-formats/src/fat/block_allocation_table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index 42465ce..e63b2b9 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -107,9 +107,8 @@ impl FatBlockAllocationTable {
                 }
             }
             FatFormat::Fat16 => bytes_to_u16_le!(data, 0) as u32,
-            FatFormat::Fat32 => {
-                bytes_to_u32_le!(data, 0)
-            }
+            // The upper 4 bits are reserved.
+            FatFormat::Fat32 => bytes_to_u32_le!(data, 0) & 0x0fffffff,
         };
         if self.mediator.debug_output {
             self.mediator
-- 
2.43.0


From 6f3b16090a6a25a3794f3b90f7db73eb33e7ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 062/129] fix: fat: use the upper 16 bits of the start cluster
 on FAT-32

---
 keramics-formats/src/fat/file_entry.rs        | 12 ++++++++----
 .../src/fat/short_name_directory_entry.rs     | 19 +++++++++++++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/fat/file_entry.rs b/keramics-formats/src/fat/file_entry.rs
index 09668ba..af1c7c7 100644
--- a/keramics-formats/src/fat/file_entry.rs
+++ b/keramics-formats/src/fat/file_entry.rs
@@ -117,9 +117,11 @@ impl FatFileEntry {
         if self.is_directory() {
             return Ok(None);
         }
-        let (data_start_cluster, data_size): (u16, u32) = match self.directory_entry.as_ref() {
+        let (data_start_cluster, data_size): (u32, u32) = match self.directory_entry.as_ref() {
             Some(directory_entry) => (
-                directory_entry.short_name.data_start_cluster,
+                directory_entry
+                    .short_name
+                    .get_data_start_cluster(&self.block_allocation_table.format),
                 directory_entry.short_name.data_size,
             ),
             None => (0, 0),
@@ -130,7 +132,7 @@ impl FatFileEntry {
         match block_stream.open(
             &self.data_stream,
             &self.block_allocation_table,
-            data_start_cluster as u32,
+            data_start_cluster,
         ) {
             Ok(_) => {}
             Err(mut error) => {
@@ -253,7 +255,9 @@ impl FatFileEntry {
     /// Reads the sub directory entries.
     fn read_sub_directory_entries(&mut self) -> Result<(), ErrorTrace> {
         let cluster_block_number: u32 = match &self.directory_entry {
-            Some(directory_entry) => directory_entry.short_name.data_start_cluster as u32,
+            Some(directory_entry) => directory_entry
+                .short_name
+                .get_data_start_cluster(&self.block_allocation_table.format),
             None => {
                 return Err(keramics_core::error_trace_new!("Missing directory entry"));
             }
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index ee587c3..9e157ff 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -18,7 +18,7 @@ use keramics_layout_map::LayoutMap;
 use keramics_types::{ByteString, bytes_to_u16_le, bytes_to_u32_le};
 
 use super::constants::*;
-
+use super::enums::FatFormat;
 #[derive(Clone, LayoutMap)]
 #[layout_map(
     structure(
@@ -29,7 +29,7 @@ use super::constants::*;
         field(name = "flags", data_type = "u8", format = "hex"),
         field(name = "creation_time", data_type = "FatTimeDate10Ms"),
         field(name = "access_date", data_type = "FatDate"),
-        field(name = "unknown2", data_type = "[u8; 2]", format = "hex"),
+        field(name = "data_start_cluster_upper", data_type = "u16"),
         field(name = "modification_time", data_type = "FatTimeDate"),
         field(name = "data_start_cluster", data_type = "u16"),
         field(name = "data_size", data_type = "u32"),
@@ -60,6 +60,9 @@ pub struct FatShortNameDirectoryEntry {
     /// Data start cluster.
     pub data_start_cluster: u16,
 
+    /// Upper 16-bits of the data start cluster, only used by FAT-32.
+    pub data_start_cluster_upper: u16,
+
     /// Data size.
     pub data_size: u32,
 }
@@ -75,10 +78,21 @@ impl FatShortNameDirectoryEntry {
             access_time: DateTime::NotSet,
             modification_time: DateTime::NotSet,
             data_start_cluster: 0,
+            data_start_cluster_upper: 0,
             data_size: 0,
         }
     }
 
+    /// Retrieves the data start cluster block number.
+    pub fn get_data_start_cluster(&self, format: &FatFormat) -> u32 {
+        match format {
+            FatFormat::Fat12 | FatFormat::Fat16 => self.data_start_cluster as u32,
+            FatFormat::Fat32 => {
+                ((self.data_start_cluster_upper as u32) << 16) | (self.data_start_cluster as u32)
+            }
+        }
+    }
+
     /// Reads the directory entry from a buffer.
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         if data.len() < 32 {
@@ -121,6 +135,7 @@ impl FatShortNameDirectoryEntry {
         self.access_time = DateTime::FatDate(FatDate::from_bytes(&data[18..20]));
         self.modification_time = DateTime::FatTimeDate(FatTimeDate::from_bytes(&data[22..26]));
 
+        self.data_start_cluster_upper = bytes_to_u16_le!(data, 20);
         self.data_start_cluster = bytes_to_u16_le!(data, 26);
         self.data_size = bytes_to_u32_le!(data, 28);
 
-- 
2.43.0


From f846aa3c592558b0f6b6c336c123c56b4e51d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 063/129] fix: fat: a terminator entry ends the directory

---
 keramics-formats/src/fat/directory_entries.rs    | 11 +++++++----
 keramics-formats/src/fat/directory_entry_type.rs |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 524f5ac..e77e5b8 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -94,13 +94,15 @@ impl FatDirectoryEntries {
     }
 
     /// Reads the directory entries from a buffer.
+    ///
+    /// Returns false if there are no successive directory entries.
     fn read_data(
         &mut self,
         data: &[u8],
         mut directory_entry_offset: u64,
         last_vfat_sequence_number: &mut u8,
         long_name_entries: &mut Vec<FatLongNameDirectoryEntry>,
-    ) -> Result<(), ErrorTrace> {
+    ) -> Result<bool, ErrorTrace> {
         let mut safe_last_vfat_sequence_number: u8 = *last_vfat_sequence_number;
 
         let mut data_offset: usize = 0;
@@ -195,7 +197,7 @@ impl FatDirectoryEntries {
                     }
                 }
                 FatDirectoryEntryType::Terminator => {
-                    break;
+                    return Ok(false);
                 }
                 FatDirectoryEntryType::Unallocated => {
                     // TODO: add support for recovering unallocated entries
@@ -206,7 +208,7 @@ impl FatDirectoryEntries {
         }
         *last_vfat_sequence_number = safe_last_vfat_sequence_number;
 
-        Ok(())
+        Ok(true)
     }
 
     /// Reads the directories entries starting at a specific cluster block in a data stream.
@@ -254,7 +256,8 @@ impl FatDirectoryEntries {
                 &mut last_vfat_sequence_number,
                 &mut long_name_entries,
             ) {
-                Ok(_) => {}
+                Ok(true) => {}
+                Ok(false) => break,
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
                         error,
diff --git a/keramics-formats/src/fat/directory_entry_type.rs b/keramics-formats/src/fat/directory_entry_type.rs
index 3a07398..25fed7d 100644
--- a/keramics-formats/src/fat/directory_entry_type.rs
+++ b/keramics-formats/src/fat/directory_entry_type.rs
@@ -36,7 +36,7 @@ impl FatDirectoryEntryType {
             && ((data[0] >= 0x01 && data[0] <= 0x13) || (data[0] >= 0x41 && data[0] <= 0x54))
         {
             FatDirectoryEntryType::LongName
-        } else if data[0..32] == [0; 32] {
+        } else if data[0] == 0x00 {
             FatDirectoryEntryType::Terminator
         } else {
             FatDirectoryEntryType::ShortName
-- 
2.43.0


From b96bf724506bf973d6b3251fb4de20899236405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 064/129] fix: fat: clusters can be allocated past the end of
 the data of a file

---
 keramics-formats/src/fat/block_stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/block_stream.rs b/keramics-formats/src/fat/block_stream.rs
index cc6cc2b..ba00da0 100644
--- a/keramics-formats/src/fat/block_stream.rs
+++ b/keramics-formats/src/fat/block_stream.rs
@@ -70,7 +70,11 @@ impl FatBlockStream {
         let mut read_cluster_block_numbers: HashSet<u32> = HashSet::new();
         let mut logical_offset: u64 = 0;
 
-        while cluster_block_number >= 2 && cluster_block_number < largest_cluster_block_number {
+        // Note that more cluster blocks can be allocated than needed to store the data.
+        while logical_offset < block_tree_data_size
+            && cluster_block_number >= 2
+            && cluster_block_number < largest_cluster_block_number
+        {
             if read_cluster_block_numbers.contains(&cluster_block_number) {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Cluster block: {} already read",
-- 
2.43.0


From 515327a39cfd69e0030cda689213a1cae24914d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 065/129] fix: fat: look up byte strings case insensitive

---
 keramics-formats/src/fat/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/string.rs b/keramics-formats/src/fat/string.rs
index b9b152d..ed3fab4 100644
--- a/keramics-formats/src/fat/string.rs
+++ b/keramics-formats/src/fat/string.rs
@@ -64,7 +64,7 @@ impl FatString {
                         }
                     }
                 }
-                lookup_name
+                Ucs2String::new_with_case_folding(&lookup_name, case_folding_mappings)
             }
             FatString::Ucs2String(ucs2_string) => {
                 Ucs2String::new_with_case_folding(ucs2_string, case_folding_mappings)
-- 
2.43.0


From 1c4f5e297a871915e4c2d29734e1879193ac4274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 066/129] fix: fat: ignore long name entries that do not belong
 to the short name entry

---
 keramics-formats/src/fat/directory_entries.rs    | 16 +++++++++-------
 keramics-formats/src/fat/directory_entry.rs      | 16 ++++++++++++++++
 .../src/fat/long_name_directory_entry.rs         |  6 +++++-
 .../src/fat/short_name_directory_entry.rs        |  6 ++++++
 4 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index e77e5b8..891d00b 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -147,14 +147,11 @@ impl FatDirectoryEntries {
                     }
                     let vfat_sequence_number: u8 = entry.sequence_number & 0x1f;
 
-                    if entry.sequence_number & 0x40 != 0 {
-                        // TODO: warn about incomplete long name entry sequence
+                    // TODO: warn about incomplete long name entry sequence
+                    if entry.sequence_number & 0x40 != 0
+                        || vfat_sequence_number + 1 != safe_last_vfat_sequence_number
+                    {
                         long_name_entries.clear();
-                    } else if vfat_sequence_number + 1 != safe_last_vfat_sequence_number {
-                        return Err(keramics_core::error_trace_new!(format!(
-                            "VFAT long name sequence number mismatch at offset: {} (0x{:08x})",
-                            directory_entry_offset, directory_entry_offset
-                        )));
                     }
                     long_name_entries.push(entry);
 
@@ -180,10 +177,14 @@ impl FatDirectoryEntries {
                         }
                     }
                     if entry.file_attribute_flags & 0x58 == FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
+                        long_name_entries.clear();
+
                         self.volume_label = Some(entry.name);
                     } else {
                         // Ignore "." and ".."
                         if entry.name == "." || entry.name == ".." {
+                            long_name_entries.clear();
+
                             // TODO: add support to handle special directory entries
                         } else {
                             let mut directory_entry: FatDirectoryEntry =
@@ -201,6 +202,7 @@ impl FatDirectoryEntries {
                 }
                 FatDirectoryEntryType::Unallocated => {
                     // TODO: add support for recovering unallocated entries
+                    long_name_entries.clear();
                 }
             }
             data_offset = data_end_offset;
diff --git a/keramics-formats/src/fat/directory_entry.rs b/keramics-formats/src/fat/directory_entry.rs
index 7388a97..6e4a7f2 100644
--- a/keramics-formats/src/fat/directory_entry.rs
+++ b/keramics-formats/src/fat/directory_entry.rs
@@ -65,7 +65,23 @@ impl FatDirectoryEntry {
     }
 
     /// Fills the directory entry based on a long name directory entries.
+    ///
+    /// Long name directory entries that are incomplete or do not correspond to the short name
+    /// directory entry are ignored.
     pub fn set_long_name(&mut self, long_name_entries: &mut Vec<FatLongNameDirectoryEntry>) {
+        let number_of_entries: usize = long_name_entries.len();
+
+        let is_complete: bool = long_name_entries
+            .iter()
+            .enumerate()
+            .all(|(entry_index, entry)| {
+                (entry.sequence_number & 0x1f) as usize == number_of_entries - entry_index
+                    && (entry.sequence_number & 0x40 != 0) == (entry_index == 0)
+                    && entry.name_checksum == self.short_name.name_checksum
+            });
+        if !is_complete {
+            long_name_entries.clear();
+        }
         if !long_name_entries.is_empty() {
             let mut long_name: Ucs2String = Ucs2String::new();
 
diff --git a/keramics-formats/src/fat/long_name_directory_entry.rs b/keramics-formats/src/fat/long_name_directory_entry.rs
index ed6aaa4..4f47bdb 100644
--- a/keramics-formats/src/fat/long_name_directory_entry.rs
+++ b/keramics-formats/src/fat/long_name_directory_entry.rs
@@ -36,6 +36,9 @@ pub struct FatLongNameDirectoryEntry {
 
     /// Name
     pub name: Ucs2String,
+
+    /// Checksum of the corresponding short name.
+    pub name_checksum: u8,
 }
 
 impl FatLongNameDirectoryEntry {
@@ -44,6 +47,7 @@ impl FatLongNameDirectoryEntry {
         Self {
             sequence_number: 0,
             name: Ucs2String::new(),
+            name_checksum: 0,
         }
     }
 
@@ -55,7 +59,7 @@ impl FatLongNameDirectoryEntry {
             ));
         }
         self.sequence_number = data[0];
-
+        self.name_checksum = data[13];
         self.name.read_data_le(&data[1..11]);
 
         if self.name.len() == 5 || data[14..16] != [0xff, 0xff] {
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index 9e157ff..d7b78e2 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -42,6 +42,8 @@ pub struct FatShortNameDirectoryEntry {
     /// Name
     pub name: ByteString,
 
+    /// Name checksum, used to match VFAT long name entries.
+    pub name_checksum: u8,
     /// File attribute flags.
     pub file_attribute_flags: u8,
 
@@ -72,6 +74,7 @@ impl FatShortNameDirectoryEntry {
     pub fn new() -> Self {
         Self {
             name: ByteString::new_with_encoding(&CharacterEncoding::Ascii),
+            name_checksum: 0,
             file_attribute_flags: 0,
             flags: 0,
             creation_time: DateTime::NotSet,
@@ -100,6 +103,9 @@ impl FatShortNameDirectoryEntry {
                 "Unsupported directory entry data size"
             ));
         }
+        self.name_checksum = data[0..11].iter().fold(0, |checksum: u8, value| {
+            checksum.rotate_right(1).wrapping_add(*value)
+        });
         self.file_attribute_flags = data[11];
         self.flags = data[12];
 
-- 
2.43.0


From ff9adf585ec79c6ca35efac891af8e32e437e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 067/129] fix: fat: file entry identifiers are 64-bit offsets

---
 keramics-formats/src/fat/directory_entries.rs |  2 +-
 keramics-formats/src/fat/directory_entry.rs   |  4 ++--
 keramics-formats/src/fat/file_entry.rs        |  4 ++--
 keramics-formats/src/fat/file_system.rs       | 14 +++++++-------
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 891d00b..f2a3c7b 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -188,7 +188,7 @@ impl FatDirectoryEntries {
                             // TODO: add support to handle special directory entries
                         } else {
                             let mut directory_entry: FatDirectoryEntry =
-                                FatDirectoryEntry::new(directory_entry_offset as u32, entry);
+                                FatDirectoryEntry::new(directory_entry_offset, entry);
                             directory_entry.set_long_name(long_name_entries);
 
                             let lookup_name: Ucs2String =
diff --git a/keramics-formats/src/fat/directory_entry.rs b/keramics-formats/src/fat/directory_entry.rs
index 6e4a7f2..b8bf04f 100644
--- a/keramics-formats/src/fat/directory_entry.rs
+++ b/keramics-formats/src/fat/directory_entry.rs
@@ -23,7 +23,7 @@ use super::short_name_directory_entry::FatShortNameDirectoryEntry;
 #[derive(Clone)]
 pub struct FatDirectoryEntry {
     /// Identifier.
-    pub identifier: u32,
+    pub identifier: u64,
 
     /// Short name.
     pub short_name: FatShortNameDirectoryEntry,
@@ -34,7 +34,7 @@ pub struct FatDirectoryEntry {
 
 impl FatDirectoryEntry {
     /// Creates a new directory entry.
-    pub fn new(identifier: u32, short_name: FatShortNameDirectoryEntry) -> Self {
+    pub fn new(identifier: u64, short_name: FatShortNameDirectoryEntry) -> Self {
         Self {
             identifier: identifier,
             short_name: short_name,
diff --git a/keramics-formats/src/fat/file_entry.rs b/keramics-formats/src/fat/file_entry.rs
index af1c7c7..d47a2fe 100644
--- a/keramics-formats/src/fat/file_entry.rs
+++ b/keramics-formats/src/fat/file_entry.rs
@@ -32,7 +32,7 @@ pub struct FatFileEntry {
     block_allocation_table: Arc<FatBlockAllocationTable>,
 
     /// The identifier.
-    pub identifier: u32,
+    pub identifier: u64,
 
     /// The directory entry.
     directory_entry: Option<FatDirectoryEntry>,
@@ -46,7 +46,7 @@ impl FatFileEntry {
     pub(super) fn new(
         data_stream: &DataStreamReference,
         block_allocation_table: &Arc<FatBlockAllocationTable>,
-        identifier: u32,
+        identifier: u64,
         directory_entry: Option<FatDirectoryEntry>,
         sub_directory_entries: FatDirectoryEntries,
     ) -> Self {
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index 1cc5f30..1c5d0d7 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -112,9 +112,9 @@ impl FatFileSystem {
     /// Retrieves the file entry for a specific identifier (inode number).
     pub fn get_file_entry_by_identifier(
         &self,
-        file_entry_identifier: u32,
+        file_entry_identifier: u64,
     ) -> Result<FatFileEntry, ErrorTrace> {
-        if (file_entry_identifier as u64) == self.root_directory_offset {
+        if file_entry_identifier == self.root_directory_offset {
             return self.get_root_directory();
         }
         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
@@ -215,7 +215,7 @@ impl FatFileSystem {
         Ok(FatFileEntry::new(
             data_stream,
             block_allocation_table,
-            self.root_directory_offset as u32,
+            self.root_directory_offset,
             None,
             directory_entries,
         ))
@@ -242,13 +242,13 @@ impl FatFileSystem {
     fn read_directory_entry_by_identifier(
         &self,
         data_stream: &DataStreamReference,
-        file_entry_identifier: u32,
+        file_entry_identifier: u64,
     ) -> Result<FatDirectoryEntry, ErrorTrace> {
         // TODO: move code into DirectoryEntryScanner
         let mut short_name_entry: FatShortNameDirectoryEntry = FatShortNameDirectoryEntry::new();
 
         match short_name_entry
-            .read_at_position(data_stream, SeekFrom::Start(file_entry_identifier as u64))
+            .read_at_position(data_stream, SeekFrom::Start(file_entry_identifier))
         {
             Ok(_) => {}
             Err(mut error) => {
@@ -262,12 +262,12 @@ impl FatFileSystem {
                 return Err(error);
             }
         }
-        let mut directory_entry_offset: u64 = (file_entry_identifier as u64) - 32;
+        let mut directory_entry_offset: u64 = file_entry_identifier - 32;
 
         let cluster_block_number: u32 = if directory_entry_offset < self.first_cluster_offset {
             0
         } else {
-            (2 + ((file_entry_identifier as u64) - self.first_cluster_offset)
+            (2 + (file_entry_identifier - self.first_cluster_offset)
                 / (self.cluster_block_size as u64)) as u32
         };
         let first_directory_entry_offset: u64 =
-- 
2.43.0


From 538d337ff072a471e62998b4535af7097882164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 068/129] fix: fat: find the whole long name of a file entry by
 identifier

---
 .../src/fat/block_allocation_table.rs         | 61 ++++++++++++-
 keramics-formats/src/fat/file_system.rs       | 90 +++++++++++++------
 2 files changed, 121 insertions(+), 30 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index e63b2b9..c7e2068 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -11,8 +11,8 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
-
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStreamReference, ErrorTrace};
 use keramics_types::{bytes_to_u16_le, bytes_to_u32_le};
@@ -68,6 +68,65 @@ impl FatBlockAllocationTable {
         }
     }
 
+    /// Determines the cluster block number of which the entry refers to a specific cluster block.
+    pub fn get_previous_cluster_block_number(
+        &self,
+        data_stream: &DataStreamReference,
+        cluster_block_number: u32,
+    ) -> Result<Option<u32>, ErrorTrace> {
+        let number_of_entries: u64 = (self.number_of_entries as u64) + 2;
+        let table_size: u64 = match &self.format {
+            FatFormat::Fat12 => number_of_entries.div_ceil(2) * 3,
+            FatFormat::Fat16 => number_of_entries * 2,
+            FatFormat::Fat32 => number_of_entries * 4,
+        };
+        // Note that the size must be a multitude of 2, 3 and 4.
+        let mut data: Vec<u8> = vec![0; min(table_size, 98304) as usize];
+        let mut table_offset: u64 = 0;
+        let mut entry_index: u64 = 0;
+
+        while entry_index < number_of_entries {
+            let read_size: usize = min(table_size - table_offset, 98304) as usize;
+
+            keramics_core::data_stream_read_exact_at_position!(
+                data_stream,
+                &mut data[..read_size],
+                SeekFrom::Start(self.offset + table_offset)
+            );
+            let number_of_read_entries: u64 = match &self.format {
+                FatFormat::Fat12 => ((read_size as u64) / 3) * 2,
+                FatFormat::Fat16 => (read_size as u64) / 2,
+                FatFormat::Fat32 => (read_size as u64) / 4,
+            };
+            for relative_index in 0..number_of_read_entries {
+                let entry: u32 = match &self.format {
+                    FatFormat::Fat12 => {
+                        let data_offset: usize = ((relative_index / 2) * 3) as usize;
+
+                        if relative_index % 2 == 0 {
+                            (bytes_to_u16_le!(data, data_offset) & 0x0fff) as u32
+                        } else {
+                            (bytes_to_u16_le!(data, data_offset + 1) >> 4) as u32
+                        }
+                    }
+                    FatFormat::Fat16 => bytes_to_u16_le!(data, (relative_index * 2) as usize) as u32,
+                    FatFormat::Fat32 => {
+                        bytes_to_u32_le!(data, (relative_index * 4) as usize) & 0x0fffffff
+                    }
+                };
+                if entry == cluster_block_number
+                    && entry_index >= 2
+                    && entry_index < number_of_entries
+                {
+                    return Ok(Some(entry_index as u32));
+                }
+                entry_index += 1;
+            }
+            table_offset += read_size as u64;
+        }
+        Ok(None)
+    }
+
     /// Reads a block allocation table entry.
     pub fn read_entry(
         &self,
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index 1c5d0d7..a80b925 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -133,7 +133,11 @@ impl FatFileSystem {
                 }
             };
         let directory_entry: FatDirectoryEntry =
-            match self.read_directory_entry_by_identifier(data_stream, file_entry_identifier) {
+            match self.read_directory_entry_by_identifier(
+                data_stream,
+                block_allocation_table,
+                file_entry_identifier,
+            ) {
                 Ok(directory_entry) => directory_entry,
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(error, "Unable to read directory entry");
@@ -242,6 +246,7 @@ impl FatFileSystem {
     fn read_directory_entry_by_identifier(
         &self,
         data_stream: &DataStreamReference,
+        block_allocation_table: &Arc<FatBlockAllocationTable>,
         file_entry_identifier: u64,
     ) -> Result<FatDirectoryEntry, ErrorTrace> {
         // TODO: move code into DirectoryEntryScanner
@@ -262,27 +267,65 @@ impl FatFileSystem {
                 return Err(error);
             }
         }
-        let mut directory_entry_offset: u64 = file_entry_identifier - 32;
+        let is_root_directory: bool = self.root_directory_size > 0
+            && file_entry_identifier < self.first_cluster_offset;
 
-        let cluster_block_number: u32 = if directory_entry_offset < self.first_cluster_offset {
-            0
+        if file_entry_identifier < self.root_directory_offset
+            || (!is_root_directory && file_entry_identifier < self.first_cluster_offset)
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported file entry identifier: {} (0x{:08x})",
+                file_entry_identifier, file_entry_identifier
+            )));
+        }
+        let mut directory_entry_offset: u64 = file_entry_identifier;
+        let mut first_directory_entry_offset: u64 = if is_root_directory {
+            self.root_directory_offset
         } else {
-            (2 + (file_entry_identifier - self.first_cluster_offset)
-                / (self.cluster_block_size as u64)) as u32
+            let relative_offset: u64 = file_entry_identifier - self.first_cluster_offset;
+            file_entry_identifier - (relative_offset % (self.cluster_block_size as u64))
         };
-        let first_directory_entry_offset: u64 =
-            if directory_entry_offset < self.first_cluster_offset {
-                self.root_directory_offset
-            } else {
-                self.first_cluster_offset
-                    + (((cluster_block_number - 2) as u64) * (self.cluster_block_size as u64))
-            };
+
         let mut last_vfat_sequence_number: u8 = 0;
         let mut long_name_entries: Vec<FatLongNameDirectoryEntry> = Vec::new();
         let mut last_entry: bool = false;
+
         let mut data: [u8; 32] = [0; 32];
 
-        while directory_entry_offset >= first_directory_entry_offset {
+        while long_name_entries.len() < 20 {
+            if directory_entry_offset < first_directory_entry_offset + 32 {
+                if is_root_directory {
+                    break;
+                }
+                let cluster_block_number: u64 = 2
+                    + (first_directory_entry_offset - self.first_cluster_offset)
+                        / (self.cluster_block_size as u64);
+
+                let result: Option<u32> = match block_allocation_table
+                    .get_previous_cluster_block_number(data_stream, cluster_block_number as u32)
+                {
+                    Ok(result) => result,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to determine previous cluster block number"
+                        );
+                        return Err(error);
+                    }
+                };
+                first_directory_entry_offset = match result {
+                    Some(cluster_block_number) => {
+                        self.first_cluster_offset
+                            + (((cluster_block_number - 2) as u64)
+                                * (self.cluster_block_size as u64))
+                    }
+                    None => break,
+                };
+                directory_entry_offset =
+                    first_directory_entry_offset + (self.cluster_block_size as u64);
+            }
+            directory_entry_offset -= 32;
+
             keramics_core::data_stream_read_exact_at_position!(
                 data_stream,
                 &mut data,
@@ -317,13 +360,8 @@ impl FatFileSystem {
 
                     if long_name_entry.sequence_number & 0x40 != 0 {
                         last_entry = true;
-                    } else if last_vfat_sequence_number != 0
-                        && last_vfat_sequence_number + 1 != vfat_sequence_number
-                    {
-                        return Err(keramics_core::error_trace_new!(format!(
-                            "VFAT long name sequence number mismatch at offset: {} (0x{:08x})",
-                            directory_entry_offset, directory_entry_offset
-                        )));
+                    } else if last_vfat_sequence_number + 1 != vfat_sequence_number {
+                        break;
                     }
                     long_name_entries.push(long_name_entry);
 
@@ -334,19 +372,13 @@ impl FatFileSystem {
             if last_entry {
                 break;
             }
-            directory_entry_offset -= 32;
-        }
-        if !last_entry {
-            // TODO: determine previous cluster block.
         }
         let mut directory_entry: FatDirectoryEntry =
             FatDirectoryEntry::new(file_entry_identifier, short_name_entry);
 
-        if last_vfat_sequence_number & 0x40 == 0 {
-            long_name_entries.reverse();
+        long_name_entries.reverse();
+        directory_entry.set_long_name(&mut long_name_entries);
 
-            directory_entry.set_long_name(&mut long_name_entries);
-        }
         Ok(directory_entry)
     }
 
-- 
2.43.0


From bf0f2998c08ed055a3db913eb417eeab07afeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 069/129] fix: keramicsinfo: FAT file entry identifiers are
 64-bit offsets

---
 keramics-tools/src/info/fat.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/keramics-tools/src/info/fat.rs b/keramics-tools/src/info/fat.rs
index 193d065..9a94b21 100644
--- a/keramics-tools/src/info/fat.rs
+++ b/keramics-tools/src/info/fat.rs
@@ -136,14 +136,8 @@ impl FatInfo {
                 return Err(error);
             }
         }
-        if fat_entry_identifier > u32::MAX as u64 {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Unsupported identifier: {} value out of bounds",
-                fat_entry_identifier
-            )));
-        }
         let mut file_entry: FatFileEntry =
-            match fat_file_system.get_file_entry_by_identifier(fat_entry_identifier as u32) {
+            match fat_file_system.get_file_entry_by_identifier(fat_entry_identifier) {
                 Ok(file_entry) => file_entry,
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
-- 
2.43.0


From 6477bb7fbd2c1d22e0f5446665699b985d360d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 070/129] fix: fat: use the active allocation table of a FAT-32
 volume without mirroring

---
 keramics-formats/src/fat/boot_record.rs       |  4 ++++
 keramics-formats/src/fat/boot_record_fat32.rs | 15 +++++++++++++++
 keramics-formats/src/fat/file_system.rs       |  3 ++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/boot_record.rs b/keramics-formats/src/fat/boot_record.rs
index 2eaa08f..46c4ebd 100644
--- a/keramics-formats/src/fat/boot_record.rs
+++ b/keramics-formats/src/fat/boot_record.rs
@@ -43,6 +43,9 @@ pub struct FatBootRecord {
     /// File allocation table size.
     pub allocation_table_size: u32,
 
+    /// Number of the active allocation table.
+    pub active_allocation_table: u16,
+
     /// Number of sectors.
     pub number_of_sectors: u32,
 
@@ -68,6 +71,7 @@ impl FatBootRecord {
             number_of_root_directory_entries: 0,
             number_of_allocation_tables: 0,
             allocation_table_size: 0,
+            active_allocation_table: 0,
             root_directory_cluster_block_number: 0,
             volume_serial_number: 0,
             volume_label: ByteString::new(),
diff --git a/keramics-formats/src/fat/boot_record_fat32.rs b/keramics-formats/src/fat/boot_record_fat32.rs
index 37564c4..2f928ed 100644
--- a/keramics-formats/src/fat/boot_record_fat32.rs
+++ b/keramics-formats/src/fat/boot_record_fat32.rs
@@ -117,6 +117,21 @@ impl Fat32BootRecord {
         }
         boot_record.number_of_sectors = bytes_to_u32_le!(data, 32);
         boot_record.allocation_table_size = bytes_to_u32_le!(data, 36);
+
+        // Without mirroring only one of the allocation tables is in use.
+        let extended_flags: u16 = bytes_to_u16_le!(data, 40);
+        if extended_flags & 0x0080 != 0 {
+            boot_record.active_allocation_table = extended_flags & 0x000f;
+        }
+        if boot_record.active_allocation_table != 0
+            && boot_record.active_allocation_table
+                >= boot_record.number_of_allocation_tables as u16
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported active allocation table: {}",
+                boot_record.active_allocation_table
+            )));
+        }
         boot_record.root_directory_cluster_block_number = bytes_to_u32_le!(data, 44);
 
         if boot_record.root_directory_cluster_block_number < 2 {
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index a80b925..bba1078 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -444,7 +444,8 @@ impl FatFileSystem {
         }
         self.block_allocation_table = Some(Arc::new(FatBlockAllocationTable::new(
             &self.format,
-            allocation_table_offset,
+            allocation_table_offset
+                + ((boot_record.active_allocation_table as u64) * allocation_table_size),
             number_of_clusters as u32,
             self.first_cluster_offset,
             self.cluster_block_size,
-- 
2.43.0


From 9538237e650414d807a9c2b93709d7e15da6a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 071/129] fix: ext: use the metadata checksum seed of the
 superblock

---
 keramics-formats/src/ext/features.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/ext/features.rs b/keramics-formats/src/ext/features.rs
index af97388..26f8470 100644
--- a/keramics-formats/src/ext/features.rs
+++ b/keramics-formats/src/ext/features.rs
@@ -52,11 +52,16 @@ impl ExtFeatures {
             & EXT_READ_ONLY_COMPATIBLE_FEATURE_FLAG_METADATA_CHECKSUM
             != 0
         {
-            let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0x82f63b78, 0);
-            crc32_context.update(&superblock.file_system_identifier);
-            let checksum: u32 = crc32_context.finalize();
-
-            self.metadata_checksum_seed = Some(checksum);
+            let checksum_seed: u32 = match superblock.metadata_checksum_seed {
+                Some(checksum_seed) => checksum_seed,
+                None => {
+                    let mut crc32_context: ReversedCrc32Context =
+                        ReversedCrc32Context::new(0x82f63b78, 0);
+                    crc32_context.update(&superblock.file_system_identifier);
+                    crc32_context.finalize()
+                }
+            };
+            self.metadata_checksum_seed = Some(checksum_seed);
         }
     }
 
-- 
2.43.0


From e573830999b20e5f2736c150335beb6be5405539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 072/129] fix: ext: a volume with metadata checksums is ext4

---
 keramics-formats/src/ext/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/features.rs b/keramics-formats/src/ext/features.rs
index 26f8470..7e7a869 100644
--- a/keramics-formats/src/ext/features.rs
+++ b/keramics-formats/src/ext/features.rs
@@ -69,7 +69,7 @@ impl ExtFeatures {
     pub fn get_format_version(&self) -> u8 {
         if self.compatible_feature_flags & 0x00000200 != 0
             || self.incompatible_feature_flags & 0x0001f7c0 != 0
-            || self.read_only_compatible_feature_flags & 0x00000378 != 0
+            || self.read_only_compatible_feature_flags & 0x00000778 != 0
         {
             4
         } else if self.compatible_feature_flags & 0x00000004 != 0
-- 
2.43.0


From d82da7e5e6c9a9d4d232db96483b97fdceddfffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 073/129] fix: ext: inode checksum without upper part in the
 inode extension

---
 keramics-formats/src/ext/inode_table.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ext/inode_table.rs b/keramics-formats/src/ext/inode_table.rs
index d656bbc..ed5408d 100644
--- a/keramics-formats/src/ext/inode_table.rs
+++ b/keramics-formats/src/ext/inode_table.rs
@@ -16,7 +16,7 @@ use std::io::SeekFrom;
 use keramics_checksums::ReversedCrc32Context;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStreamReference, ErrorTrace};
-
+use keramics_types::bytes_to_u16_le;
 use crate::block_tree::BlockTree;
 
 use super::features::ExtFeatures;
@@ -165,15 +165,20 @@ impl ExtInodeTable {
                 crc32_context.update(&[0; 2]);
                 crc32_context.update(&data[126..128]);
 
-                if inode_size > 128 {
+                // The upper part of the checksum is only stored if the inode extension has room for it.
+                let has_checksum_upper: bool =
+                    inode_size >= 132 && bytes_to_u16_le!(data, 128) >= 4;
+                if has_checksum_upper {
                     crc32_context.update(&data[128..130]);
                     crc32_context.update(&[0; 2]);
                     crc32_context.update(&data[132..inode_size]);
+                } else if inode_size > 128 {
+                    crc32_context.update(&data[128..inode_size]);
                 }
                 let mut calculated_checksum: u32 = crc32_context.finalize();
                 calculated_checksum = 0xffffffff - calculated_checksum;
 
-                if inode_size <= 128 {
+                if !has_checksum_upper {
                     calculated_checksum &= 0x0000ffff;
                 }
                 if inode.checksum != 0 && (inode.checksum as u32) != calculated_checksum {
-- 
2.43.0


From 92d16f83bc3acd81f244d92cbf500b75d7abbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 074/129] fix: ext: inode size of format revision 0

---
 keramics-formats/src/ext/superblock.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 9ed7ebe..debcd0a 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -287,7 +287,12 @@ impl ExtSuperblock {
         }
         self.last_mount_time = PosixTime32::from_le_bytes(&data[44..48]);
         self.last_written_time = PosixTime32::from_le_bytes(&data[48..52]);
-        self.inode_size = bytes_to_u16_le!(data, 88);
+        // The inode size is not stored in format revision 0.
+        self.inode_size = if self.format_revision == 0 {
+            128
+        } else {
+            bytes_to_u16_le!(data, 88)
+        };
         self.group_descriptor_size = bytes_to_u16_le!(data, 254);
         self.first_meta_block_group = bytes_to_u32_le!(data, 260);
         self.file_system_identifier.copy_from_slice(&data[104..120]);
-- 
2.43.0


From 585ead7f4509a5e5853f5b9adcfc3207b6eedef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 075/129] fix: ext: number of block groups of a volume with
 1024-byte blocks

---
 keramics-formats/src/ext/superblock.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index debcd0a..1186ee6 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -144,9 +144,11 @@ pub struct ExtSuperblock {
     /// Number of blocks.
     pub number_of_blocks: u64,
 
+    /// First data block number.
+    pub first_data_block_number: u32,
+
     /// Block size.
     pub block_size: u32,
-
     /// Number of blocks per block group.
     pub number_of_blocks_per_block_group: u32,
 
@@ -202,6 +204,7 @@ impl ExtSuperblock {
         Self {
             number_of_inodes: 0,
             number_of_blocks: 0,
+            first_data_block_number: 0,
             block_size: 0,
             number_of_blocks_per_block_group: 0,
             number_of_inodes_per_block_group: 0,
@@ -257,8 +260,8 @@ impl ExtSuperblock {
                 self.number_of_blocks
             )));
         }
+        self.first_data_block_number = bytes_to_u32_le!(data, 20);
         self.block_size = bytes_to_u32_le!(data, 24);
-
         if self.block_size > 32 - 10 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
@@ -352,7 +355,9 @@ impl ExtSuperblock {
 
     /// Retrieves the number of block groups.
     pub fn get_number_of_block_groups(&self) -> u64 {
+        // The first block group starts at the first data block.
         self.number_of_blocks
+            .saturating_sub(self.first_data_block_number as u64)
             .div_ceil(self.number_of_blocks_per_block_group as u64)
     }
 }
-- 
2.43.0


From 4a6d912bd129c253620c33aa2b562b384a04e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 076/129] fix: ext: data size of large files in ext2 and ext3

---
 keramics-formats/src/ext/inode_ext2.rs | 6 ++++++
 keramics-formats/src/ext/inode_ext3.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/keramics-formats/src/ext/inode_ext2.rs b/keramics-formats/src/ext/inode_ext2.rs
index 78a1eb4..3b4450d 100644
--- a/keramics-formats/src/ext/inode_ext2.rs
+++ b/keramics-formats/src/ext/inode_ext2.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -71,6 +72,11 @@ impl Ext2Inode {
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
+        // The directory ACL contains the upper 32-bit of the data size of a regular file.
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            let upper_32bit: u32 = bytes_to_u32_le!(data, 108);
+            inode.data_size |= (upper_32bit as u64) << 32;
+        }
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
         if inode.access_timestamp > 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
diff --git a/keramics-formats/src/ext/inode_ext3.rs b/keramics-formats/src/ext/inode_ext3.rs
index 1a34cab..78d3ccf 100644
--- a/keramics-formats/src/ext/inode_ext3.rs
+++ b/keramics-formats/src/ext/inode_ext3.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -71,6 +72,11 @@ impl Ext3Inode {
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
+        // The directory ACL contains the upper 32-bit of the data size of a regular file.
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            let upper_32bit: u32 = bytes_to_u32_le!(data, 108);
+            inode.data_size |= (upper_32bit as u64) << 32;
+        }
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
         if inode.access_timestamp > 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
-- 
2.43.0


From 04dfe5063a62464b9d02f3c1f68437382c1fa13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 077/129] fix: ext: inline data and symbolic link targets are
 not block numbers

---
 keramics-formats/src/ext/inode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index 720728d..263782e 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -161,8 +161,10 @@ impl ExtInode {
         if format_version == 4 && self.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             // The data is stored inline in self.data_reference
             // Note that self.data_size can be larger than 60
+            return Ok(());
         } else if file_mode_type == EXT_FILE_MODE_TYPE_SYMBOLIC_LINK && self.data_size < 60 {
             // The symbolic link target path is stored in self.data_reference
+            return Ok(());
         }
         match file_mode_type {
             EXT_FILE_MODE_TYPE_CHARACTER_DEVICE | EXT_FILE_MODE_TYPE_BLOCK_DEVICE => {
-- 
2.43.0


From 09866ef8cf398d3da3f5abf2436043cd1b3740e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 078/129] fix: ext: blocks preallocated beyond the end of a
 sparse file

---
 keramics-formats/src/ext/block_stream.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/block_stream.rs b/keramics-formats/src/ext/block_stream.rs
index 1063cbc..29f50f7 100644
--- a/keramics-formats/src/ext/block_stream.rs
+++ b/keramics-formats/src/ext/block_stream.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
@@ -60,8 +61,16 @@ impl ExtBlockStream {
         self.block_tree =
             BlockTree::<ExtBlockRange>::new(block_tree_data_size, 0, self.block_size as u64);
         for block_range in block_ranges.iter() {
+            // Blocks can be preallocated beyond the end of the file.
+            if block_range.logical_block_number >= number_of_blocks {
+                break;
+            }
+            let range_number_of_blocks: u64 = min(
+                block_range.number_of_blocks,
+                number_of_blocks - block_range.logical_block_number,
+            );
             let logical_offset: u64 = block_range.logical_block_number * (self.block_size as u64);
-            let range_size: u64 = block_range.number_of_blocks * (self.block_size as u64);
+            let range_size: u64 = range_number_of_blocks * (self.block_size as u64);
             match self
                 .block_tree
                 .insert_value(logical_offset, range_size, block_range.clone())
-- 
2.43.0


From 11dbe37c0eb0fd4f205ae772b2a940b11f9fb7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 079/129] fix: ext: remember that directory entries were read
 from block data

---
 keramics-formats/src/ext/directory_entries.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-formats/src/ext/directory_entries.rs b/keramics-formats/src/ext/directory_entries.rs
index e5ddb68..07cd6ba 100644
--- a/keramics-formats/src/ext/directory_entries.rs
+++ b/keramics-formats/src/ext/directory_entries.rs
@@ -89,6 +89,8 @@ impl ExtDirectoryEntries {
                 return Err(error);
             }
         }
+        self.is_read = true;
+
         Ok(())
     }
 
-- 
2.43.0


From 59196d5c1dc3ec94d0b5d3350d166f799d8c1d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 080/129] fix: ext: directory entry that spans a block of 65536
 bytes

---
 keramics-formats/src/ext/directory_tree.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index 0b180f4..fe81530 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -135,7 +135,13 @@ impl ExtDirectoryTree {
             if entry.size == 0 {
                 break;
             }
-            if entry.size < 8 || (entry.size as usize) > data_size - data_offset {
+            // An entry of 65536 bytes, in a block of that size, is stored as 65535.
+            let entry_size: usize = if entry.size == 0xffff && data_size - data_offset == 65536 {
+                65536
+            } else {
+                entry.size as usize
+            };
+            if entry_size < 8 || entry_size > data_size - data_offset {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid directory entry size: {} value out of bounds",
                     entry.size
@@ -153,7 +159,7 @@ impl ExtDirectoryTree {
                     return Err(error);
                 }
             };
-            data_offset += (entry.size as usize) - 8;
+            data_offset += entry_size - 8;
 
             // TODO: print trailing data
 
-- 
2.43.0


From f602f8d79475ab073a54c0d3c11b3d9e3d9a4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 081/129] fix: ext: ignore backup group descriptor tables that
 cannot be read

---
 keramics-formats/src/ext/file_system.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index ffd764c..f77ee05 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -264,12 +264,12 @@ impl ExtFileSystem {
             // The first block group will always contain a superblock.
             let block_group_has_superblock: bool = if block_group_number == 0 {
                 true
-            // If sparse superblock feature is disabled all block groups contain a superblock.
-            } else if !self.features.has_sparse_superblock() {
-                true
             // TODO: add support for sparse superblock version 2
             } else if self.features.has_sparse_superblock2() {
                 false
+            // If sparse superblock feature is disabled all block groups contain a superblock.
+            } else if !self.features.has_sparse_superblock() {
+                true
             // Only block group numbers that are a power of 3, 5 or 7 contain a superblock.
             } else if block_group_number == 1
                 || block_group_number == exponent3
@@ -417,6 +417,11 @@ impl ExtFileSystem {
                     .read_at_position(data_stream, SeekFrom::Start(group_descriptor_offset))
                 {
                     Ok(_) => {}
+                    // Ignore backup group descriptor tables that cannot be read.
+                    Err(_)
+                        if block_group_number > 0
+                            && (!self.features.has_meta_block_groups()
+                                || block_group_number < meta_group_start_block_number) => {}
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
-- 
2.43.0


From 30589575e5aa415c9cc0c4bad56c51b88075487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 082/129] fix: ext: inline data that is stored in the extended
 attributes

---
 keramics-formats/src/ext/attribute.rs         | 29 +++++++++++++++--
 keramics-formats/src/ext/attributes_block.rs  | 11 ++++---
 keramics-formats/src/ext/directory_tree.rs    | 13 ++++++--
 keramics-formats/src/ext/file_entry.rs        | 32 ++++++++++++++++---
 keramics-formats/src/ext/inode.rs             | 21 +++++++++++-
 .../src/ext/inode_extension_ext4.rs           | 23 +++++++++++++
 6 files changed, 114 insertions(+), 15 deletions(-)

diff --git a/keramics-formats/src/ext/attribute.rs b/keramics-formats/src/ext/attribute.rs
index 4391a60..cce7000 100644
--- a/keramics-formats/src/ext/attribute.rs
+++ b/keramics-formats/src/ext/attribute.rs
@@ -11,13 +11,36 @@
  * under the License.
  */
 
+use keramics_types::ByteString;
+
 /// Extended File System (ext) attribute.
-pub struct ExtAttribute {}
+pub struct ExtAttribute {
+    /// The name.
+    pub(super) name: ByteString,
+
+    /// Value data offset.
+    pub(super) value_data_offset: u16,
 
+    /// Value data inode number.
+    pub(super) value_data_inode_number: u32,
+
+    /// Value data size.
+    pub(super) value_data_size: u32,
+}
 impl ExtAttribute {
     /// Creates a new attribute.
-    pub(super) fn new() -> Self {
-        Self {}
+    pub(super) fn new(
+        name: ByteString,
+        value_data_offset: u16,
+        value_data_inode_number: u32,
+        value_data_size: u32,
+    ) -> Self {
+        Self {
+            name: name,
+            value_data_offset: value_data_offset,
+            value_data_inode_number: value_data_inode_number,
+            value_data_size: value_data_size,
+        }
     }
 
     // TODO: add method to retrieve name
diff --git a/keramics-formats/src/ext/attributes_block.rs b/keramics-formats/src/ext/attributes_block.rs
index a13236a..9dfa04d 100644
--- a/keramics-formats/src/ext/attributes_block.rs
+++ b/keramics-formats/src/ext/attributes_block.rs
@@ -76,9 +76,6 @@ impl ExtAttributesBlock {
             }
             entry_data_offset = data_end_offset;
 
-            let attribute: ExtAttribute = ExtAttribute::new();
-            // TODO: fill attribute
-
             let name: ByteString = match entry.read_name(&data[entry_data_offset..]) {
                 Ok(name) => name,
                 Err(mut error) => {
@@ -112,8 +109,12 @@ impl ExtAttributesBlock {
 
             // TODO: read inline value data.
 
-            entries.push(attribute);
-
+            entries.push(ExtAttribute::new(
+                name,
+                entry.value_data_offset,
+                entry.value_data_inode_number,
+                entry.value_data_size,
+            ));
             entry_data_offset += alignment_padding_size;
         }
         Ok(())
diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index fe81530..736db8a 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::BTreeMap;
 use std::io::SeekFrom;
 
@@ -97,8 +98,12 @@ impl ExtDirectoryTree {
             ));
             self.mediator.debug_print_data(&data, true);
         }
+        if data_size < 4 {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported directory tree inline data size"
+            ));
+        }
         let parent_inode_number: u32 = bytes_to_u32_le!(data, 0);
-
         if self.mediator.debug_output {
             self.mediator.debug_print(format!("ExtDirectoryTree {{\n"));
             self.mediator.debug_print(format!(
@@ -107,7 +112,11 @@ impl ExtDirectoryTree {
             ));
             self.mediator.debug_print(format!("}}\n\n"));
         }
-        self.read_node_data(&data, 4, data_size, entries)
+        // The entries in the inode data reference and those in the extended attribute do not overlap.
+        let data_reference_size: usize = min(data_size, 60);
+
+        self.read_node_data(&data, 4, data_reference_size, entries)?;
+        self.read_node_data(&data, data_reference_size, data_size, entries)
     }
 
     /// Reads the directory tree node from a buffer.
diff --git a/keramics-formats/src/ext/file_entry.rs b/keramics-formats/src/ext/file_entry.rs
index 0f81159..4affb6c 100644
--- a/keramics-formats/src/ext/file_entry.rs
+++ b/keramics-formats/src/ext/file_entry.rs
@@ -158,7 +158,18 @@ impl ExtFileEntry {
                 )));
             }
             let byte_string: ByteString = if self.inode.data_size < 60 {
-                ByteString::from(self.inode.data_reference.as_slice())
+                ByteString::from(&self.inode.data_reference[..self.inode.data_size as usize])
+            } else if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
+                match self.inode.get_inline_data() {
+                    Ok(data) => ByteString::from(&data),
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to retrieve inline data"
+                        );
+                        return Err(error);
+                    }
+                }
             } else {
                 let number_of_blocks: u64 = max(
                     self.inode
@@ -212,8 +223,14 @@ impl ExtFileEntry {
             return Ok(None);
         }
         if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
-            let data_stream: FakeDataStream =
-                FakeDataStream::new(&self.inode.data_reference, self.inode.data_size);
+            let data: Vec<u8> = match self.inode.get_inline_data() {
+                Ok(data) => data,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to retrieve inline data");
+                    return Err(error);
+                }
+            };
+            let data_stream: FakeDataStream = FakeDataStream::new(&data, self.inode.data_size);
             Ok(Some(Arc::new(RwLock::new(data_stream))))
         } else {
             let number_of_blocks: u64 = max(
@@ -384,9 +401,16 @@ impl ExtFileEntry {
     /// Reads the sub directory entries.
     fn read_sub_directory_entries(&mut self) -> Result<(), ErrorTrace> {
         if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
+            let data: Vec<u8> = match self.inode.get_inline_data() {
+                Ok(data) => data,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to retrieve inline data");
+                    return Err(error);
+                }
+            };
             match self
                 .sub_directory_entries
-                .read_inline_data(&self.inode.data_reference, self.inode_table.block_size)
+                .read_inline_data(&data, self.inode_table.block_size)
             {
                 Ok(_) => {}
                 Err(mut error) => {
diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index 263782e..31826b6 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -73,9 +73,11 @@ pub struct ExtInode {
     /// Data reference.
     pub data_reference: [u8; 60],
 
+    /// Inline data that does not fit in the data reference.
+    pub(super) inline_data: Vec<u8>,
+
     /// Checksum.
     pub checksum: u32,
-
     /// Creation date and time.
     pub creation_time: Option<DateTime>,
 
@@ -105,6 +107,7 @@ impl ExtInode {
             number_of_blocks: 0,
             flags: 0,
             data_reference: [0; 60],
+            inline_data: Vec::new(),
             checksum: 0,
             creation_time: None,
             block_ranges: Vec::new(),
@@ -112,6 +115,22 @@ impl ExtInode {
         }
     }
 
+    /// Retrieves the inline data.
+    pub(super) fn get_inline_data(&self) -> Result<Vec<u8>, ErrorTrace> {
+        let mut data: Vec<u8> = self.data_reference.to_vec();
+        data.extend_from_slice(&self.inline_data);
+
+        if self.data_size > data.len() as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid inline data size: {} value out of bounds",
+                self.data_size
+            )));
+        }
+        data.truncate(self.data_size as usize);
+
+        Ok(data)
+    }
+
     /// Reads the inode for debugging.
     pub fn debug_read_data(&self, format_version: u8, data: &[u8]) -> String {
         let mut string_parts: Vec<String> = Vec::new();
diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 1f8e848..5d0b1c5 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -134,6 +134,29 @@ impl Ext4InodeExtension {
                         return Err(error);
                     }
                 }
+                if inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
+                    // The inline data that does not fit in the data reference is stored in
+                    // the "system.data" attribute. Note that the value data offset is relative to
+                    // the first attribute entry.
+                    for attribute in inode.attributes.iter() {
+                        if attribute.name != "system.data" || attribute.value_data_inode_number != 0
+                        {
+                            continue;
+                        }
+                        let value_data_offset: usize =
+                            data_offset + (attribute.value_data_offset as usize);
+                        let value_data_end_offset: usize =
+                            value_data_offset + (attribute.value_data_size as usize);
+
+                        if value_data_end_offset > data_size {
+                            return Err(keramics_core::error_trace_new!(
+                                "Invalid inline data attribute value out of bounds"
+                            ));
+                        }
+                        inode.inline_data =
+                            data[value_data_offset..value_data_end_offset].to_vec();
+                    }
+                }
             }
         }
         Ok(())
-- 
2.43.0


From d70e3a072e0447fe671397f6a61675ca9ec59ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 083/129] fix: ext: memory use of large sparse files

---
 keramics-formats/src/ext/block_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/block_stream.rs b/keramics-formats/src/ext/block_stream.rs
index 29f50f7..b5b1929 100644
--- a/keramics-formats/src/ext/block_stream.rs
+++ b/keramics-formats/src/ext/block_stream.rs
@@ -59,7 +59,7 @@ impl ExtBlockStream {
     ) -> Result<(), ErrorTrace> {
         let block_tree_data_size: u64 = number_of_blocks * (self.block_size as u64);
         self.block_tree =
-            BlockTree::<ExtBlockRange>::new(block_tree_data_size, 0, self.block_size as u64);
+            BlockTree::<ExtBlockRange>::new(block_tree_data_size, 256, self.block_size as u64);
         for block_range in block_ranges.iter() {
             // Blocks can be preallocated beyond the end of the file.
             if block_range.logical_block_number >= number_of_blocks {
-- 
2.43.0


From 5a7511439987f84bc0ea42e605bab0fb97a506ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 084/129] fix: ntfs: memory use of large sparse files

---
 keramics-formats/src/ntfs/block_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/block_stream.rs b/keramics-formats/src/ntfs/block_stream.rs
index 1d2713a..66a3c28 100644
--- a/keramics-formats/src/ntfs/block_stream.rs
+++ b/keramics-formats/src/ntfs/block_stream.rs
@@ -72,7 +72,7 @@ impl NtfsBlockStream {
             .div_ceil(self.cluster_block_size as u64)
             * (self.cluster_block_size as u64);
         self.block_tree =
-            BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, self.cluster_block_size as u64);
+            BlockTree::<NtfsBlockRange>::new(block_tree_size, 256, self.cluster_block_size as u64);
 
         if data_attribute.allocated_data_size > 0 {
             let mut virtual_cluster_number: u64 = 0;
-- 
2.43.0


From a5f68e9fa250c613b955efc8fd58d6e0e1c39e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 085/129] fix: convert a byte string that cannot be decoded to
 a string

---
 keramics-types/src/byte_string.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/keramics-types/src/byte_string.rs b/keramics-types/src/byte_string.rs
index eea9ce5..a00edfa 100644
--- a/keramics-types/src/byte_string.rs
+++ b/keramics-types/src/byte_string.rs
@@ -139,11 +139,24 @@ impl ByteString {
                     };
                     string_parts.push(string);
                 }
-                Err(error) => todo!(),
+                Err(_) => return self.to_escaped_string(),
             }
         }
         string_parts.join("")
     }
+
+    /// Converts a [`ByteString`] that cannot be decoded to a [`String`].
+    fn to_escaped_string(&self) -> String {
+        self.elements
+            .iter()
+            .map(|element| match *element {
+                0x5c => String::from("\\\\"),
+                0x00..=0x7f => char::from(*element).to_string(),
+                _ => format!("\\{{{:02x}}}", element),
+            })
+            .collect::<Vec<String>>()
+            .join("")
+    }
 }
 
 impl From<&[u8]> for ByteString {
-- 
2.43.0


From f81328df2276524adf3596fa9ba07522836dc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 086/129] fix: scan exactly the header and footer of a data
 stream for format signatures

---
 keramics-formats/src/scanner.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/keramics-formats/src/scanner.rs b/keramics-formats/src/scanner.rs
index 561d40f..2591ea4 100644
--- a/keramics-formats/src/scanner.rs
+++ b/keramics-formats/src/scanner.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashSet;
 use std::io::SeekFrom;
 
@@ -256,28 +257,26 @@ impl FormatScanner {
         let mut scan_context: ScanContext = ScanContext::new(&self.signature_scanner, data_size);
 
         // The size of the header range can be larger than the size of the data stream.
-        let mut data: Vec<u8> = vec![0; scan_context.header_range_size as usize];
+        let read_size: u64 = min(scan_context.header_range_size, data_size);
+        let mut data: Vec<u8> = vec![0; read_size as usize];
 
-        keramics_core::data_stream_read_at_position!(data_stream, &mut data, SeekFrom::Start(0));
+        keramics_core::data_stream_read_exact_at_position!(
+            data_stream,
+            &mut data,
+            SeekFrom::Start(0)
+        );
         scan_context.data_offset = 0;
         scan_context.scan_buffer(&data);
 
         // The size of the footer range can be larger than the size of the data stream.
-        let mut data: Vec<u8> = vec![0; scan_context.footer_range_size as usize];
+        let read_size: u64 = min(scan_context.footer_range_size, data_size);
+        let mut data: Vec<u8> = vec![0; read_size as usize];
 
-        let data_offset: usize = if scan_context.footer_range_size < data_size {
-            0
-        } else {
-            (scan_context.footer_range_size - data_size) as usize
-        };
-        let data_stream_offset: u64 = if scan_context.footer_range_size < data_size {
-            data_size - scan_context.footer_range_size
-        } else {
-            0
-        };
-        keramics_core::data_stream_read_at_position!(
+        let data_stream_offset: u64 = data_size - read_size;
+
+        keramics_core::data_stream_read_exact_at_position!(
             data_stream,
-            &mut data[data_offset..],
+            &mut data,
             SeekFrom::Start(data_stream_offset)
         );
         scan_context.data_offset = data_stream_offset;
-- 
2.43.0


From df4dc20184e80145191a6367df49743636a9713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 087/129] fix: vfs: scan the content of sparse image and UDIF
 storage media images

---
 keramics-vfs/src/scanner/scanner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-vfs/src/scanner/scanner.rs b/keramics-vfs/src/scanner/scanner.rs
index 1fdca15..853c7be 100644
--- a/keramics-vfs/src/scanner/scanner.rs
+++ b/keramics-vfs/src/scanner/scanner.rs
@@ -184,6 +184,8 @@ impl VfsScanner {
             }
             VfsType::Ewf { .. }
             | VfsType::Qcow { .. }
+            | VfsType::SparseImage { .. }
+            | VfsType::Udif { .. }
             | VfsType::Vhd { .. }
             | VfsType::Vhdx { .. } => {
                 let mut result: Option<VfsType> =
-- 
2.43.0


From 218a95108e315dd53cad2b4c69111ec7bc63d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 088/129] fix: vfs: use the type of a file system in addition
 to its location to look it up

---
 keramics-vfs/src/context.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/keramics-vfs/src/context.rs b/keramics-vfs/src/context.rs
index dc5a0e7..7abaa45 100644
--- a/keramics-vfs/src/context.rs
+++ b/keramics-vfs/src/context.rs
@@ -25,8 +25,8 @@ use super::types::VfsFileSystemReference;
 
 /// Virtual File System (VFS) context.
 pub struct VfsContext {
-    /// File systems.
-    file_systems: HashMap<VfsLocation, Weak<VfsFileSystem>>,
+    /// File systems, by the location they are stored at and their type.
+    file_systems: HashMap<(VfsLocation, VfsType), Weak<VfsFileSystem>>,
 
     /// Operating system (OS) file system path.
     os_vfs_location: VfsLocation,
@@ -90,12 +90,15 @@ impl VfsContext {
         };
         let parent_vfs_location: Option<&VfsLocation> = vfs_location.get_parent();
 
-        let lookup_key: &VfsLocation = match parent_vfs_location {
-            Some(parent_vfs_location) => parent_vfs_location,
-            None => &self.os_vfs_location,
+        let file_system_path: VfsLocation = match parent_vfs_location {
+            Some(parent_vfs_location) => parent_vfs_location.clone(),
+            None => self.os_vfs_location.clone(),
         };
+        // Note that different types of file systems can be stored at the same location.
+        let lookup_key: (VfsLocation, VfsType) = (file_system_path, vfs_type.clone());
+
         let cached_file_system: Option<VfsFileSystemReference> =
-            match self.file_systems.get(lookup_key) {
+            match self.file_systems.get(&lookup_key) {
                 Some(file_system) => file_system.upgrade(),
                 None => None,
             };
@@ -115,12 +118,8 @@ impl VfsContext {
                     },
                     None => None,
                 };
-                let file_system_path: VfsLocation = match parent_vfs_location {
-                    Some(parent_vfs_location) => parent_vfs_location.clone(),
-                    None => self.os_vfs_location.clone(),
-                };
                 let mut file_system: VfsFileSystem = VfsFileSystem::new(&vfs_type);
-                match file_system.open(parent_file_system.as_ref(), &file_system_path) {
+                match file_system.open(parent_file_system.as_ref(), &lookup_key.0) {
                     Ok(()) => {}
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(error, "Unable to open file system");
@@ -131,7 +130,7 @@ impl VfsContext {
                     VfsFileSystemReference::new(file_system);
 
                 self.file_systems.insert(
-                    file_system_path,
+                    lookup_key,
                     VfsFileSystemReference::downgrade(&cached_file_system),
                 );
                 Ok(cached_file_system)
-- 
2.43.0


From 3e25b87d4e7984bd29807dea3311e548c85142b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 089/129] fix: determine the extension and stem of byte and
 UCS-2 string path components

---
 keramics-formats/src/path_component.rs | 52 +++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index 9694e29..b499f14 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -39,7 +39,23 @@ impl PathComponent {
                     }
                 }
             }
-            _ => todo!(),
+            PathComponent::ByteString(byte_string) => {
+                match Self::get_extension_index(&byte_string.elements, &0x2e) {
+                    Some(value_index) => Some(PathComponent::ByteString(ByteString {
+                        encoding: byte_string.encoding.clone(),
+                        elements: byte_string.elements[value_index + 1..].to_vec(),
+                    })),
+                    None => None,
+                }
+            }
+            PathComponent::Ucs2String(ucs2_string) => {
+                match Self::get_extension_index(&ucs2_string.elements, &0x002e) {
+                    Some(value_index) => Some(PathComponent::Ucs2String(Ucs2String {
+                        elements: ucs2_string.elements[value_index + 1..].to_vec(),
+                    })),
+                    None => None,
+                }
+            }
         }
     }
 
@@ -59,10 +75,42 @@ impl PathComponent {
                     }
                 }
             }
-            _ => todo!(),
+            PathComponent::ByteString(byte_string) => {
+                if byte_string.is_empty() {
+                    None
+                } else {
+                    match Self::get_extension_index(&byte_string.elements, &0x2e) {
+                        Some(value_index) => Some(PathComponent::ByteString(ByteString {
+                            encoding: byte_string.encoding.clone(),
+                            elements: byte_string.elements[..value_index].to_vec(),
+                        })),
+                        None => Some(PathComponent::ByteString(byte_string.clone())),
+                    }
+                }
+            }
+            PathComponent::Ucs2String(ucs2_string) => {
+                if ucs2_string.is_empty() {
+                    None
+                } else {
+                    match Self::get_extension_index(&ucs2_string.elements, &0x002e) {
+                        Some(value_index) => Some(PathComponent::Ucs2String(Ucs2String {
+                            elements: ucs2_string.elements[..value_index].to_vec(),
+                        })),
+                        None => Some(PathComponent::Ucs2String(ucs2_string.clone())),
+                    }
+                }
+            }
         }
     }
 
+    /// Retrieves the index of the dot that starts the extension.
+    fn get_extension_index<T: PartialEq>(elements: &[T], dot: &T) -> Option<usize> {
+        // Note that a leading dot does not start an extension.
+        match elements.iter().rposition(|element| element == dot) {
+            Some(value_index) if value_index > 0 => Some(value_index),
+            _ => None,
+        }
+    }
     /// Converts the path components to a `String`.
     pub fn to_string(&self) -> String {
         match self {
-- 
2.43.0


From 3a8b1be6310382c5438a07197e55e6ca00c235f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 090/129] fix: tools: write FAT date and time values to a
 bodyfile

---
 keramics-tools/src/bodyfile.rs | 58 +++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index c1dfae6..369cedd 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -60,6 +60,34 @@ impl Bodyfile {
 
         let string: String = match date_time {
             Some(date_time) => match date_time {
+                DateTime::FatDate(fat_date) => {
+                    match Self::get_posix_time_of_fat_time_date(fat_date.date, 0) {
+                        Some(posix_time) => format!("{}", posix_time),
+                        None => String::from(""),
+                    }
+                }
+                DateTime::FatTimeDate(fat_time_date) => {
+                    match Self::get_posix_time_of_fat_time_date(
+                        fat_time_date.date,
+                        fat_time_date.time,
+                    ) {
+                        Some(posix_time) => format!("{}", posix_time),
+                        None => String::from(""),
+                    }
+                }
+                DateTime::FatTimeDate10Ms(fat_time_date) => {
+                    match Self::get_posix_time_of_fat_time_date(
+                        fat_time_date.date,
+                        fat_time_date.time,
+                    ) {
+                        Some(posix_time) => format!(
+                            "{}.{:02}",
+                            posix_time + (fat_time_date.fraction / 100) as i64,
+                            fat_time_date.fraction % 100
+                        ),
+                        None => String::from(""),
+                    }
+                }
                 DateTime::Filetime(filetime) => {
                     let mut number_of_seconds: u64 = filetime.timestamp / 10000000;
                     let mut fraction: u64 = filetime.timestamp % 10000000;
@@ -84,8 +112,36 @@ impl Bodyfile {
         };
         Ok(string)
     }
-}
 
+    /// Retrieves the POSIX time of a FAT date and time or None if the date or time is not valid.
+    fn get_posix_time_of_fat_time_date(date: u16, time: u16) -> Option<i64> {
+        let year: i64 = 1980 + ((date >> 9) & 0x7f) as i64;
+        let month: i64 = ((date >> 5) & 0x0f) as i64;
+        let day_of_month: i64 = (date & 0x1f) as i64;
+        let hours: i64 = ((time >> 11) & 0x1f) as i64;
+        let minutes: i64 = ((time >> 5) & 0x3f) as i64;
+        let seconds: i64 = ((time & 0x1f) * 2) as i64;
+
+        if month < 1 || month > 12 || day_of_month < 1 {
+            return None;
+        }
+        if hours > 23 || minutes > 59 || seconds > 59 {
+            return None;
+        }
+        // Count the number of days relative to March 1, such that a leap day is the last day of
+        // a year.
+        let number_of_months: i64 = (month + 9) % 12;
+        let number_of_years: i64 = if month < 3 { year - 1 } else { year };
+        let number_of_days: i64 = (number_of_years * 365) + (number_of_years / 4)
+            - (number_of_years / 100)
+            + (number_of_years / 400)
+            + ((number_of_months * 153) + 2) / 5
+            + (day_of_month - 1)
+            - 719468;
+
+        Some((number_of_days * 86400) + (hours * 3600) + (minutes * 60) + seconds)
+    }
+}
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b2e5ff87aefbb44725418c11c5ef0b23a093478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 091/129] fix: tools: show information about an EWF image of
 memory

---
 keramics-tools/src/info/ewf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keramics-tools/src/info/ewf.rs b/keramics-tools/src/info/ewf.rs
index 278321e..0ec4229 100644
--- a/keramics-tools/src/info/ewf.rs
+++ b/keramics-tools/src/info/ewf.rs
@@ -82,6 +82,7 @@ impl EwfInfo {
         let media_types = HashMap::<EwfMediaType, &'static str>::from([
             (EwfMediaType::FixedDisk, "fixed disk"),
             (EwfMediaType::LogicalEvidence, "logical evidence"),
+            (EwfMediaType::Memory, "memory"),
             (EwfMediaType::OpticalDisk, "optical disk (CD/DVD/BD)"),
             (EwfMediaType::RemoveableDisk, "removable disk"),
             (EwfMediaType::Unknown, "Unknown"),
-- 
2.43.0


From 1ff972cddb09e1403721f7d5fdf7e2c062564ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 092/129] fix: tools: escape names that cannot be decoded

---
 keramics-tools/src/display_path.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/keramics-tools/src/display_path.rs b/keramics-tools/src/display_path.rs
index f10c700..353b547 100644
--- a/keramics-tools/src/display_path.rs
+++ b/keramics-tools/src/display_path.rs
@@ -39,6 +39,21 @@ impl DisplayPath {
         }
     }
 
+    /// Escapes unprintable and non-ASCII characters in a byte sequence that cannot be decoded.
+    fn internal_escape_bytes(&self, bytes: &[u8]) -> String {
+        bytes
+            .iter()
+            .map(
+                |byte_value| match self.translation_table.get(&(*byte_value as u32)) {
+                    Some(escaped_character) => escaped_character.clone(),
+                    None if byte_value.is_ascii() => char::from(*byte_value).to_string(),
+                    None => format!("\\x{:02x}", byte_value),
+                },
+            )
+            .collect::<Vec<String>>()
+            .join("")
+    }
+
     /// Escapes unprintable characters in a string.
     fn internal_escape_string(&self, string: &str) -> String {
         let mut string_parts: Vec<String> = Vec::new();
@@ -76,13 +91,15 @@ impl DisplayPath {
                             };
                             string_parts.push(string);
                         }
-                        Err(error) => todo!(),
+                        Err(_) => return self.internal_escape_bytes(&byte_string.elements),
                     }
                 }
                 string_parts.join("")
             }
             VfsString::Empty => String::new(),
-            VfsString::OsString(_) => todo!(),
+            VfsString::OsString(os_string) => {
+                self.internal_escape_string(&os_string.to_string_lossy())
+            }
             VfsString::String(string) => self.internal_escape_string(string),
             VfsString::Ucs2(ucs2_string) => ucs2_string
                 .elements
-- 
2.43.0


From 34486be17de60d3993d25d362b8cbb13cbc213f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 093/129] fix: ntfs: allow multiple transactional data logged
 utility streams

---
 keramics-formats/src/ntfs/mft_attributes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/mft_attributes.rs b/keramics-formats/src/ntfs/mft_attributes.rs
index 4916a96..6e8354f 100644
--- a/keramics-formats/src/ntfs/mft_attributes.rs
+++ b/keramics-formats/src/ntfs/mft_attributes.rs
@@ -155,8 +155,10 @@ impl NtfsMftAttributes {
                     }
                     _ => {}
                 };
-                // A MFT entry can have mutliple $FILE_NAME attributes.
-                if attribute_type != NTFS_ATTRIBUTE_TYPE_FILE_NAME {
+                // A MFT entry can have mutliple $FILE_NAME and $LOGGED_UTILITY_STREAM attributes.
+                if attribute_type != NTFS_ATTRIBUTE_TYPE_FILE_NAME
+                    && attribute_type != NTFS_ATTRIBUTE_TYPE_LOGGED_UTILITY_STREAM
+                {
                     attribute_group.add_attribute_index(attribute_type, attribute_index);
                 }
                 self.attributes.push(attribute);
-- 
2.43.0


From 0845f22fb8894e6791b8a2eee759ecc1c818a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 094/129] fix: ntfs: do not preserve directory entries of a
 failed read

---
 keramics-formats/src/ntfs/file_entry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/file_entry.rs b/keramics-formats/src/ntfs/file_entry.rs
index 468584f..a3cf0a4 100644
--- a/keramics-formats/src/ntfs/file_entry.rs
+++ b/keramics-formats/src/ntfs/file_entry.rs
@@ -664,9 +664,12 @@ impl NtfsFileEntry {
                 }
             }
         }
+        // Note that the entries of a previous attempt that failed must not be preserved.
+        let mut sub_directory_entries: NtfsDirectoryEntries = NtfsDirectoryEntries::new();
+
         match self
             .directory_index
-            .get_directory_entries(&self.data_stream, &mut self.sub_directory_entries)
+            .get_directory_entries(&self.data_stream, &mut sub_directory_entries)
         {
             Ok(_) => {}
             Err(mut error) => {
@@ -677,6 +680,7 @@ impl NtfsFileEntry {
                 return Err(error);
             }
         }
+        self.sub_directory_entries = sub_directory_entries;
         self.read_sub_directory_entries = true;
 
         Ok(())
-- 
2.43.0


From 0fdb86ba540605361c06d2e517fa9a677c9c35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 095/129] fix: ntfs: set the short file name of a directory
 entry

---
 keramics-formats/src/ntfs/directory_entries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/directory_entries.rs b/keramics-formats/src/ntfs/directory_entries.rs
index 270b3d5..df4437d 100644
--- a/keramics-formats/src/ntfs/directory_entries.rs
+++ b/keramics-formats/src/ntfs/directory_entries.rs
@@ -71,7 +71,7 @@ impl NtfsDirectoryEntries {
         match self.entries.get_mut(index) {
             Some(directory_entry) => {
                 if directory_entry.file_name.name_space == NTFS_NAME_SPACE_WINDOWS
-                    && directory_entry.short_file_name.is_some()
+                    && directory_entry.short_file_name.is_none()
                 {
                     match self.short_names.get(&directory_entry.file_reference) {
                         Some(short_name) => {
-- 
2.43.0


From 2c0d82a31c02ee618e792f2e1b943a75a6e90c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 096/129] fix: ntfs: allow for an empty name at the end of
 reparse data

---
 keramics-formats/src/ntfs/junction_reparse_data.rs      | 4 ++--
 keramics-formats/src/ntfs/symbolic_link_reparse_data.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ntfs/junction_reparse_data.rs b/keramics-formats/src/ntfs/junction_reparse_data.rs
index 80a62b2..2d01ccb 100644
--- a/keramics-formats/src/ntfs/junction_reparse_data.rs
+++ b/keramics-formats/src/ntfs/junction_reparse_data.rs
@@ -58,7 +58,7 @@ impl NtfsJunctionReparseData {
 
         let data_offset: usize = (substitute_name_offset as usize) + 8;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid substitute name offset value out of bounds"
             ));
@@ -78,7 +78,7 @@ impl NtfsJunctionReparseData {
 
         let data_offset: usize = (display_name_offset as usize) + 8;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid display name offset value out of bounds"
             ));
diff --git a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
index 9a1a90e..3767b35 100644
--- a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
+++ b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
@@ -59,7 +59,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (substitute_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid substitute name offset value out of bounds"
             ));
@@ -79,7 +79,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (display_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid display name offset value out of bounds"
             ));
-- 
2.43.0


From 1845d672f159ee8fad293085f98c156c4ee24ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 097/129] fix: ntfs: read junction reparse data

---
 keramics-formats/src/ntfs/reparse_point.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keramics-formats/src/ntfs/reparse_point.rs b/keramics-formats/src/ntfs/reparse_point.rs
index 7e1801e..d1117d6 100644
--- a/keramics-formats/src/ntfs/reparse_point.rs
+++ b/keramics-formats/src/ntfs/reparse_point.rs
@@ -67,6 +67,7 @@ impl NtfsReparsePoint {
     /// Reads the reparse data from a buffer.
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         match self {
+            NtfsReparsePoint::Junction { reparse_data } => reparse_data.read_data(data),
             NtfsReparsePoint::SymbolicLink { reparse_data } => reparse_data.read_data(data),
             NtfsReparsePoint::WindowsOverlayFilter { reparse_data } => reparse_data.read_data(data),
             _ => Ok(()),
-- 
2.43.0


From b2e6218cd2be9c24f9dc16c4e33c548789fd474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 098/129] fix: ntfs: read index entries smaller than a cluster
 block

---
 keramics-formats/src/ntfs/index.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index 997c20a..0ce9f61 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -50,8 +50,23 @@ impl NtfsIndex {
         data_stream: &DataStreamReference,
         virtual_cluster_number: u64,
     ) -> Result<NtfsIndexEntry, ErrorTrace> {
-        let virtual_cluster_offset: u64 = virtual_cluster_number * (self.cluster_block_size as u64);
-
+        // Note that the VCN of an index entry that is smaller than a cluster block is in units of
+        // 512 bytes.
+        let virtual_cluster_size: u64 = if self.cluster_block_size > self.index_entry_size {
+            512
+        } else {
+            self.cluster_block_size as u64
+        };
+        let virtual_cluster_offset: u64 =
+            match virtual_cluster_number.checked_mul(virtual_cluster_size) {
+                Some(virtual_cluster_offset) => virtual_cluster_offset,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid VCN: {} value out of bounds",
+                        virtual_cluster_number
+                    )));
+                }
+            };
         let block_range: &NtfsBlockRange = match self.block_tree.get_value(virtual_cluster_offset) {
             Some(value) => value,
             None => {
-- 
2.43.0


From 33630f9a0348d3ab743f78b413e2831697b15e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 099/129] fix: ntfs: read compressed data across compression
 units

---
 keramics-formats/src/ntfs/compressed_stream.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 3c1e159..15d8cce 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -247,10 +247,6 @@ impl NtfsCompressedStream {
             let data_end_offset: usize = data_offset + range_read_size;
             let read_count: usize = match compression_unit.range_type {
                 NtfsCompressionRangeType::Compressed => {
-                    let range_read_size: usize =
-                        min(read_remainder_size, self.compression_unit_size);
-                    let data_end_offset: usize = data_offset + range_read_size;
-
                     if !self.block_cache.contains(&range_offset) {
                         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
                             Some(data_stream) => data_stream,
-- 
2.43.0


From 215511f664f92e59fa8535460c8846367bcb9cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 100/129] fix: ntfs: compressed data has the data size instead
 of the valid data size

---
 .../src/ntfs/compressed_stream.rs             | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 15d8cce..b58f281 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -52,6 +52,9 @@ pub struct NtfsCompressedStream {
 
     /// The size.
     size: u64,
+
+    /// The valid data size.
+    valid_data_size: u64,
 }
 
 impl NtfsCompressedStream {
@@ -66,6 +69,7 @@ impl NtfsCompressedStream {
             block_cache: LruCache::new(8),
             current_offset: 0,
             size: 0,
+            valid_data_size: 0,
         }
     }
 
@@ -207,7 +211,8 @@ impl NtfsCompressedStream {
                 };
             }
         }
-        self.size = data_attribute.valid_data_size;
+        self.size = data_attribute.data_size;
+        self.valid_data_size = min(data_attribute.valid_data_size, data_attribute.data_size);
 
         Ok(())
     }
@@ -222,6 +227,19 @@ impl NtfsCompressedStream {
             if current_offset >= self.size {
                 break;
             }
+            // The data after the valid data size consists of 0-byte values.
+            if current_offset >= self.valid_data_size {
+                let range_remainder_size: u64 =
+                    min(self.size - current_offset, (read_size - data_offset) as u64);
+                let data_end_offset: usize = data_offset + (range_remainder_size as usize);
+
+                data[data_offset..data_end_offset].fill(0);
+
+                data_offset = data_end_offset;
+                current_offset += range_remainder_size;
+
+                continue;
+            }
             let compression_unit: &NtfsCompressionRange =
                 match self.block_tree.get_value(current_offset) {
                     Some(value) => value,
@@ -236,7 +254,7 @@ impl NtfsCompressedStream {
             let range_size: u64 = compression_unit.size;
 
             let range_relative_offset: u64 = current_offset - range_offset;
-            let range_end_offset: u64 = min(range_offset + range_size, self.size);
+            let range_end_offset: u64 = min(range_offset + range_size, self.valid_data_size);
 
             let range_remainder_size: u64 =
                 (range_end_offset - range_offset) - range_relative_offset;
-- 
2.43.0


From 0f26fe338c65bfe418e52856282d34e38162052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 101/129] fix: LZX block without match sizes codes

---
 keramics-compression/src/lzx.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 81550a2..2460bea 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -278,14 +278,21 @@ impl LzxContext {
 
                     self.read_code_sizes(&mut bitstream, &mut match_sizes_code_sizes, 249)?;
 
-                    let mut match_sizes_huffman_tree: HuffmanTree = HuffmanTree::new(249, 16);
-                    match_sizes_huffman_tree.build(&match_sizes_code_sizes)?;
+                    // Note that a block without large matches has no match sizes codes.
+                    let match_sizes_huffman_tree: Option<HuffmanTree> =
+                        if match_sizes_code_sizes.iter().all(|code_size| *code_size == 0) {
+                            None
+                        } else {
+                            let mut huffman_tree: HuffmanTree = HuffmanTree::new(249, 16);
+                            huffman_tree.build(&match_sizes_code_sizes)?;
 
+                            Some(huffman_tree)
+                        };
                     self.decompress_huffmann_encoded_block(
                         &mut bitstream,
                         block_size,
                         &literals_huffman_tree,
-                        &match_sizes_huffman_tree,
+                        match_sizes_huffman_tree.as_ref(),
                         aligned_offsets_huffman_tree.as_ref(),
                         &mut recent_distances,
                         uncompressed_data,
@@ -395,7 +402,7 @@ impl LzxContext {
         bitstream: &mut LzxBitstream,
         block_size: u32,
         literals_huffman_tree: &HuffmanTree,
-        match_sizes_huffman_tree: &HuffmanTree,
+        match_sizes_huffman_tree: Option<&HuffmanTree>,
         aligned_offsets_huffman_tree: Option<&HuffmanTree>,
         recent_distances: &mut [u32],
         uncompressed_data: &mut [u8],
@@ -426,7 +433,14 @@ impl LzxContext {
                 let mut match_size: u32 = (symbol % 8) as u32;
 
                 if match_size == 7 {
-                    match_size += match_sizes_huffman_tree.decode_symbol(bitstream)? as u32;
+                    match_size += match match_sizes_huffman_tree {
+                        Some(huffman_tree) => huffman_tree.decode_symbol(bitstream)? as u32,
+                        None => {
+                            return Err(keramics_core::error_trace_new!(
+                                "Missing match sizes Huffman tree"
+                            ));
+                        }
+                    };
                 }
                 match_size += 2;
 
-- 
2.43.0


From 7dfa36da0c3038ed2cac50eb3512bb7fb9588c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 102/129] fix: padding of LZX uncompressed blocks

---
 keramics-compression/src/lzx.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 2460bea..dec327b 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -301,6 +301,14 @@ impl LzxContext {
                     )?;
                 }
                 3 => {
+                    // The data of an uncompressed block is 16-bit aligned and preceded by 1 to 16
+                    // bits of padding.
+                    if bitstream.number_of_bits == 0 {
+                        bitstream.skip_bits(16);
+                    } else {
+                        let number_of_bits: usize = bitstream.number_of_bits;
+                        bitstream.skip_bits(number_of_bits);
+                    }
                     if 12 > bitstream.data_size - bitstream.data_offset {
                         return Err(keramics_core::error_trace_new!(
                             "Invalid compressed data value too small"
@@ -343,6 +351,13 @@ impl LzxContext {
                         uncompressed_data_size,
                     )?;
                     uncompressed_data_offset += uncompressed_block_size;
+
+                    // An uncompressed block of an odd size is followed by a padding byte.
+                    if uncompressed_block_size % 2 != 0
+                        && bitstream.data_offset < bitstream.data_size
+                    {
+                        bitstream.data_offset += 1;
+                    }
                 }
                 _ => {
                     return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 2d032cbd870c54e6f37b71dde2e9ead16ae2f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 103/129] fix: ntfs: empty and bad MFT entries have no
 attributes

---
 keramics-formats/src/ntfs/mft_entry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index b3e04eb..8a84351 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -75,6 +75,10 @@ impl NtfsMftEntry {
         &self,
         mft_attributes: &mut NtfsMftAttributes,
     ) -> Result<(), ErrorTrace> {
+        // Note that empty and bad MFT entries have no attributes.
+        if self.is_empty || self.is_bad {
+            return Ok(());
+        }
         let mut data_offset: usize = self.attributes_offset as usize;
         let data_size: usize = self.data.len();
 
-- 
2.43.0


From f1843caea32666c0186274782d2d76a5fd5304a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 104/129] fix: ntfs: determine if a MFT entry is allocated from
 its flags

---
 keramics-formats/src/ntfs/mft_entry.rs        | 2 +-
 keramics-formats/src/ntfs/mft_entry_header.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index 8a84351..2d89558 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -191,7 +191,7 @@ impl NtfsMftEntry {
         self.base_record_file_reference = mft_entry_header.base_record_file_reference;
         self.journal_sequence_number = mft_entry_header.journal_sequence_number;
         self.attributes_offset = mft_entry_header.attributes_offset;
-        self.is_allocated = true;
+        self.is_allocated = mft_entry_header.flags & 0x0001 != 0;
 
         Ok(())
     }
diff --git a/keramics-formats/src/ntfs/mft_entry_header.rs b/keramics-formats/src/ntfs/mft_entry_header.rs
index cc0de11..efdbec1 100644
--- a/keramics-formats/src/ntfs/mft_entry_header.rs
+++ b/keramics-formats/src/ntfs/mft_entry_header.rs
@@ -55,6 +55,8 @@ pub struct NtfsMftEntryHeader {
     /// Attributes offset.
     pub attributes_offset: u16,
 
+    /// Flags.
+    pub flags: u16,
     /// MFT entry size.
     pub mft_entry_size: u32,
 
@@ -71,6 +73,7 @@ impl NtfsMftEntryHeader {
             journal_sequence_number: 0,
             sequence_number: 0,
             attributes_offset: 0,
+            flags: 0,
             mft_entry_size: 0,
             base_record_file_reference: 0,
         }
@@ -93,6 +96,7 @@ impl NtfsMftEntryHeader {
         self.journal_sequence_number = bytes_to_u64_le!(data, 8);
         self.sequence_number = bytes_to_u16_le!(data, 16);
         self.attributes_offset = bytes_to_u16_le!(data, 20);
+        self.flags = bytes_to_u16_le!(data, 22);
         self.mft_entry_size = bytes_to_u32_le!(data, 28);
         self.base_record_file_reference = bytes_to_u64_le!(data, 32);
 
-- 
2.43.0


From 0fe65c1a9898202844de0b0fcef642c4f9902c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 105/129] fix: ntfs: use the data flags of the first attribute
 in a chain

---
 keramics-formats/src/ntfs/mft_attribute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keramics-formats/src/ntfs/mft_attribute.rs b/keramics-formats/src/ntfs/mft_attribute.rs
index f2f2e33..116ecf9 100644
--- a/keramics-formats/src/ntfs/mft_attribute.rs
+++ b/keramics-formats/src/ntfs/mft_attribute.rs
@@ -131,6 +131,9 @@ impl NtfsMftAttribute {
             self.valid_data_size = other.valid_data_size;
             self.compression_unit_size = other.compression_unit_size;
             self.compressed_data_size = other.compressed_data_size;
+
+            // Note that the data flags of other attributes in the chain can be inconsistent.
+            self.data_flags = other.data_flags;
         }
         // TODO: check for overlapping clusters
         for cluster_group in other.data_cluster_groups.drain(..) {
-- 
2.43.0


From c262cbf06f5df0f166ae25fcd4990313acebd4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 106/129] fix: ntfs: attribute list entries across cluster
 blocks

---
 keramics-formats/src/ntfs/attribute_list.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index d684384..d515200 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -106,6 +106,8 @@ impl NtfsAttributeList {
                     return Err(error);
                 }
             }
+            // Note that an attribute list entry can be stored across cluster blocks.
+            let mut data: Vec<u8> = Vec::new();
             let mut cluster_block: Vec<u8> = vec![0; cluster_block_size as usize];
 
             loop {
@@ -122,15 +124,16 @@ impl NtfsAttributeList {
                 if read_count == 0 {
                     break;
                 }
-                match self.read_data(&cluster_block[..read_count]) {
-                    Ok(_) => {}
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read non-resident attribute list"
-                        );
-                        return Err(error);
-                    }
+                data.extend_from_slice(&cluster_block[..read_count]);
+            }
+            match self.read_data(&data) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read non-resident attribute list"
+                    );
+                    return Err(error);
                 }
             }
         }
-- 
2.43.0


From 24ec839634b987079e5ea977990782d13dcfa635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:08 +0000
Subject: [PATCH 107/129] fix: bzip2: check the bounds of run-lengths, code
 sizes and selectors

---
 keramics-compression/src/bzip2.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index f1dcd3f..00b785e 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -486,6 +486,13 @@ impl Bzip2Context {
                 break;
             }
             if symbol == 0 || symbol == 1 {
+                // Note that a block contains at most 900000 bytes.
+                if number_of_run_length_symbols >= 20 {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid number of run-length symbols: {} value out of bounds",
+                        number_of_run_length_symbols + 1
+                    )));
+                }
                 run_length_value |= (symbol as u64) << (number_of_run_length_symbols as u64);
                 number_of_run_length_symbols += 1;
 
@@ -528,7 +535,7 @@ impl Bzip2Context {
             if symbol_index % 50 == 0 {
                 let selector_index: usize = symbol_index / 50;
 
-                if selector_index > number_of_selectors {
+                if selector_index > selectors.len() - 1 || selector_index > number_of_selectors {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid selector index: {} value out of bounds",
                         selector_index
@@ -564,6 +571,11 @@ impl Bzip2Context {
                 if value_32bit == 0 {
                     code_size += 1;
                 } else {
+                    if code_size == 0 {
+                        return Err(keramics_core::error_trace_new!(
+                            "Invalid code size value out of bounds"
+                        ));
+                    }
                     code_size -= 1;
                 }
             }
@@ -587,7 +599,15 @@ impl Bzip2Context {
 
         for symbol_index in 0..number_of_symbols {
             code_size = code_size_array[symbol_index] as u32;
-            check_value -= 1 << (largest_code_size - code_size);
+            check_value = match check_value.checked_sub(1 << (largest_code_size - code_size)) {
+                Some(value) => value,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid check value, code sizes: {:?} value out of bounds",
+                        &code_size_array[0..number_of_symbols]
+                    )));
+                }
+            };
         }
         if check_value != 0 {
             return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 8689738649bf661d03e5e53cf9080491a3a307af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:08 +0000
Subject: [PATCH 108/129] fix: lzfse: check the bounds of the frequency tables
 and read the version 1 table at its own offset

---
 keramics-compression/src/lzfse.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index e54718a..601c776 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -43,7 +43,7 @@ const LZFSE_NUMBER_OF_M_VALUE_SYMBOLS: i16 = 20;
 const LZFSE_NUMBER_OF_D_VALUE_STATES: i16 = 256;
 const LZFSE_NUMBER_OF_D_VALUE_SYMBOLS: i16 = 64;
 
-// const LZFSE_MATCHES_PER_BLOCK: usize = 10000;
+const LZFSE_MATCHES_PER_BLOCK: u32 = 10000;
 // const LZFSE_LITERALS_PER_BLOCK: usize = 40000; // 4 * LZFSE_MATCHES_PER_BLOCK;
 const LZFSE_MAXIMUM_NUMBER_OF_LITERALS: usize = 40064; // LZFSE_LITERALS_PER_BLOCK + 64
 
@@ -489,14 +489,14 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
-            sum_of_frequencies += frequency as i16;
-
-            if sum_of_frequencies > number_of_states {
+            if frequency > (number_of_states - sum_of_frequencies) as u16 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid sum of frequencies: {} value out of bounds",
-                    sum_of_frequencies,
+                    sum_of_frequencies as u32 + frequency as u32,
                 )));
             }
+            sum_of_frequencies += frequency as i16;
+
             let number_of_bits: u32 = frequency.leading_zeros() - number_of_leading_zeros;
             let base_decoder_weight: i16 =
                 ((2 * number_of_states) >> number_of_bits) - frequency as i16;
@@ -546,14 +546,14 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
-            sum_of_frequencies += frequency as i16;
-
-            if sum_of_frequencies > number_of_states {
+            if frequency > (number_of_states - sum_of_frequencies) as u16 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid sum of frequencies: {} value out of bounds",
-                    sum_of_frequencies,
+                    sum_of_frequencies as u32 + frequency as u32,
                 )));
             }
+            sum_of_frequencies += frequency as i16;
+
             let number_of_bits: u32 = frequency.leading_zeros() - number_of_leading_zeros;
             let base_decoder_weight: i16 =
                 ((2 * number_of_states) >> number_of_bits) - frequency as i16;
@@ -922,7 +922,6 @@ impl LzfseContext {
                 .debug_print(format!("LzfseFrequencyTable {{\n"));
             self.mediator.debug_print(format!("    values: [\n"));
         }
-        let mut data_offset: usize = 42;
         for frequency_table_index in 0..360 {
             let frequency_value: u16 = bytes_to_u16_le!(compressed_data, data_offset);
             data_offset += 2;
@@ -1035,6 +1034,11 @@ impl LzfseContext {
                 }
                 frequency_table[frequency_table_index] = frequency_value;
 
+                if frequency_value_size as usize > number_of_bits {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid compressed frequency table value too small"
+                    ));
+                }
                 value_32bit >>= frequency_value_size;
                 number_of_bits -= frequency_value_size as usize;
             }
@@ -1136,6 +1140,12 @@ impl LzfseContext {
                 decoder.lmd_values_bits,
             )));
         }
+        if decoder.number_of_lmd_values > LZFSE_MATCHES_PER_BLOCK {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of L, M and D values: {} value out of bounds",
+                decoder.number_of_lmd_values,
+            )));
+        }
         let mut data_offset: usize = *uncompressed_data_offset;
         let mut remaining_data_size: usize = uncompressed_data_size - data_offset;
 
-- 
2.43.0


From b0145b091bae105fb2ab19ee18bb1bd8bded0b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 109/129] fix: block tree: check insert ranges without overflow

---
 keramics-formats/src/block_tree.rs      | 8 +++-----
 keramics-formats/src/block_tree_node.rs | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/block_tree.rs b/keramics-formats/src/block_tree.rs
index 1a5fb12..35ae641 100644
--- a/keramics-formats/src/block_tree.rs
+++ b/keramics-formats/src/block_tree.rs
@@ -96,12 +96,10 @@ impl<T> BlockTree<T> {
 
     /// Inserts a (leaf) value.
     pub fn insert_value(&mut self, offset: u64, size: u64, value: T) -> Result<(), InsertError> {
-        if offset + size > self.data_size {
+        if offset > self.data_size || size > self.data_size - offset {
             return Err(InsertError::new(format!(
-                "Range: {} - {} exceeds data size: {}",
-                offset,
-                offset + size,
-                self.data_size
+                "Range at offset: {} of size: {} exceeds data size: {}",
+                offset, size, self.data_size
             )));
         }
         if offset % self.leaf_value_size != 0 {
diff --git a/keramics-formats/src/block_tree_node.rs b/keramics-formats/src/block_tree_node.rs
index 6b6c224..c743abf 100644
--- a/keramics-formats/src/block_tree_node.rs
+++ b/keramics-formats/src/block_tree_node.rs
@@ -87,7 +87,7 @@ impl<T> BlockTreeNode<T> {
                 )));
             }
             let element_offset: u64 = self.offset + (element_index * self.element_size);
-            let element_end_offset: u64 = element_offset + self.element_size;
+            let element_end_offset: u64 = element_offset.saturating_add(self.element_size);
             let range_end_offset: u64 = min(end_offset, element_end_offset);
 
             let value_is_set: bool = match self.values.get(element_index as usize) {
-- 
2.43.0


From d53bcc4b590949ed02172799ed85e2e5928ba1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 110/129] fix: ext: check the bounds of superblock values,
 extents and inode numbers

---
 keramics-formats/src/ext/extents_tree.rs | 23 ++++++++++++++++++++++-
 keramics-formats/src/ext/inode_table.rs  | 15 +++++++++++++--
 keramics-formats/src/ext/superblock.rs   | 22 +++++++++++++++++++++-
 3 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ext/extents_tree.rs b/keramics-formats/src/ext/extents_tree.rs
index 563bfb2..8178303 100644
--- a/keramics-formats/src/ext/extents_tree.rs
+++ b/keramics-formats/src/ext/extents_tree.rs
@@ -108,7 +108,18 @@ impl ExtExtentsTree {
             )));
         }
         let mut data_offset: usize = 12;
-
+        if (extents_header.number_of_entries as usize) > (data_size - data_offset) / 12 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                extents_header.number_of_entries,
+            )));
+        }
+        // Note that only the root node can have no entries.
+        if extents_header.number_of_entries == 0 && parent_depth < 6 {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid number of entries in sub node"
+            ));
+        }
         if extents_header.depth > 0 {
             for _ in 0..extents_header.number_of_entries {
                 let data_end_offset: usize = data_offset + 12;
@@ -178,6 +189,16 @@ impl ExtExtentsTree {
                 }
                 data_offset = data_end_offset;
 
+                // Note that the extents of a tree do not overlap, which also prevents reading
+                // a sub node more than once.
+                if entry.number_of_blocks == 0
+                    || (entry.logical_block_number as u64) < *logical_block_number
+                {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid extent logical block number: {}, number of blocks: {} value out of bounds",
+                        entry.logical_block_number, entry.number_of_blocks
+                    )));
+                }
                 if entry.logical_block_number as u64 > *logical_block_number {
                     let number_of_blocks: u64 =
                         (entry.logical_block_number as u64) - *logical_block_number;
diff --git a/keramics-formats/src/ext/inode_table.rs b/keramics-formats/src/ext/inode_table.rs
index ed5408d..b220ae8 100644
--- a/keramics-formats/src/ext/inode_table.rs
+++ b/keramics-formats/src/ext/inode_table.rs
@@ -123,8 +123,19 @@ impl ExtInodeTable {
         let inode_group_index: u32 = (inode_number - 1) % self.number_of_inodes_per_block_group;
 
         let mut inode_data_offset: u64 = (inode_group_index as u64) * (self.inode_size as u64);
-        inode_data_offset += group_descriptor.inode_table_block_number * (self.block_size as u64);
-
+        inode_data_offset = match group_descriptor
+            .inode_table_block_number
+            .checked_mul(self.block_size as u64)
+            .and_then(|inode_table_offset| inode_table_offset.checked_add(inode_data_offset))
+        {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid inode table block number: {} value out of bounds",
+                    group_descriptor.inode_table_block_number
+                )));
+            }
+        };
         let inode_size: usize = self.inode_size as usize;
         let mut data: Vec<u8> = vec![0; inode_size];
 
diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 1186ee6..e95881a 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -262,7 +262,8 @@ impl ExtSuperblock {
         }
         self.first_data_block_number = bytes_to_u32_le!(data, 20);
         self.block_size = bytes_to_u32_le!(data, 24);
-        if self.block_size > 32 - 10 {
+        // Note that the maximum block size is 64 KiB.
+        if self.block_size > 6 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
                 self.block_size
@@ -270,6 +271,12 @@ impl ExtSuperblock {
         }
         self.block_size = 1024 << self.block_size;
 
+        if self.number_of_blocks > u64::MAX / (self.block_size as u64) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of blocks: {} value out of bounds",
+                self.number_of_blocks
+            )));
+        }
         self.number_of_blocks_per_block_group = bytes_to_u32_le!(data, 32);
 
         if self.number_of_blocks_per_block_group == 0 {
@@ -280,6 +287,13 @@ impl ExtSuperblock {
         }
         self.number_of_inodes_per_block_group = bytes_to_u32_le!(data, 40);
 
+        // Note that the inode bitmap of a block group is stored in a single block.
+        if self.number_of_inodes_per_block_group > 8 * self.block_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of inodes per block group: {} value out of bounds",
+                self.number_of_inodes_per_block_group
+            )));
+        }
         if self.incompatible_feature_flags & EXT_INCOMPATIBLE_FEATURE_FLAG_JOURNAL_DEVICE == 0 {
             if self.number_of_inodes_per_block_group == 0 {
                 return Err(keramics_core::error_trace_new!(format!(
@@ -296,6 +310,12 @@ impl ExtSuperblock {
         } else {
             bytes_to_u16_le!(data, 88)
         };
+        if self.inode_size < 128 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid inode size: {} value out of bounds",
+                self.inode_size
+            )));
+        }
         self.group_descriptor_size = bytes_to_u16_le!(data, 254);
         self.first_meta_block_group = bytes_to_u32_le!(data, 260);
         self.file_system_identifier.copy_from_slice(&data[104..120]);
-- 
2.43.0


From d790674db5aab9f47a55778d77bdd38a915c3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 111/129] fix: ntfs: check the bounds of attributes, attribute
 lists and data runs

---
 keramics-formats/src/ntfs/attribute_list.rs   |  7 ++-
 .../src/ntfs/attribute_list_entry.rs          |  6 ++
 keramics-formats/src/ntfs/block_stream.rs     | 27 ++++++--
 .../src/ntfs/compressed_stream.rs             |  9 ++-
 keramics-formats/src/ntfs/constants.rs        |  6 ++
 keramics-formats/src/ntfs/data_run.rs         | 28 ++++++++-
 keramics-formats/src/ntfs/index.rs            | 14 ++++-
 .../src/ntfs/master_file_table.rs             | 61 +++++++++++++++----
 keramics-formats/src/ntfs/mft_attribute.rs    |  2 +-
 .../src/ntfs/mft_attribute_header.rs          |  6 ++
 .../src/ntfs/wof_compressed_stream.rs         | 43 +++++++++----
 11 files changed, 171 insertions(+), 38 deletions(-)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index d515200..ab6920a 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -97,8 +97,13 @@ impl NtfsAttributeList {
                 }
             }
         } else {
+            if data_attribute.data_size > NTFS_MAXIMUM_ATTRIBUTE_LIST_SIZE {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported $ATTRIBUTE_LIST attribute data size: {} value out of bounds",
+                    data_attribute.data_size
+                )));
+            }
             let mut block_stream: NtfsBlockStream = NtfsBlockStream::new(cluster_block_size);
-
             match block_stream.open(data_stream, data_attribute) {
                 Ok(_) => {}
                 Err(mut error) => {
diff --git a/keramics-formats/src/ntfs/attribute_list_entry.rs b/keramics-formats/src/ntfs/attribute_list_entry.rs
index b62c542..fd82e5c 100644
--- a/keramics-formats/src/ntfs/attribute_list_entry.rs
+++ b/keramics-formats/src/ntfs/attribute_list_entry.rs
@@ -66,6 +66,12 @@ impl NtfsAttributeListEntry {
         }
         self.attribute_type = bytes_to_u32_le!(data, 0);
         self.attribute_size = bytes_to_u16_le!(data, 4);
+        if self.attribute_size < 26 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported attribute size: {}",
+                self.attribute_size
+            )));
+        }
         self.name_size = data[6];
         self.name_offset = data[7];
         self.file_reference = bytes_to_u64_le!(data, 16);
diff --git a/keramics-formats/src/ntfs/block_stream.rs b/keramics-formats/src/ntfs/block_stream.rs
index 66a3c28..a54aa5e 100644
--- a/keramics-formats/src/ntfs/block_stream.rs
+++ b/keramics-formats/src/ntfs/block_stream.rs
@@ -67,10 +67,18 @@ impl NtfsBlockStream {
                 "Unsupported resident $DATA attribute"
             ));
         }
-        let block_tree_size: u64 = data_attribute
+        let block_tree_size: u64 = match data_attribute
             .allocated_data_size
-            .div_ceil(self.cluster_block_size as u64)
-            * (self.cluster_block_size as u64);
+            .checked_next_multiple_of(self.cluster_block_size as u64)
+        {
+            Some(block_tree_size) => block_tree_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid allocated data size: {} value out of bounds",
+                    data_attribute.allocated_data_size
+                )));
+            }
+        };
         self.block_tree =
             BlockTree::<NtfsBlockRange>::new(block_tree_size, 256, self.cluster_block_size as u64);
 
@@ -86,9 +94,16 @@ impl NtfsBlockStream {
                     )));
                 }
                 for data_run in cluster_group.data_runs.iter() {
-                    let range_size: u64 =
-                        data_run.number_of_blocks * (self.cluster_block_size as u64);
-
+                    let range_size: u64 = match data_run.get_range_size(self.cluster_block_size) {
+                        Ok(range_size) => range_size,
+                        Err(mut error) => {
+                            keramics_core::error_trace_add_frame!(
+                                error,
+                                "Unable to retrieve data run range size"
+                            );
+                            return Err(error);
+                        }
+                    };
                     let range_type: NtfsBlockRangeType = match &data_run.run_type {
                         NtfsDataRunType::InFile => NtfsBlockRangeType::InFile,
                         NtfsDataRunType::Sparse => NtfsBlockRangeType::Sparse,
diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index b58f281..65ed0fc 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -24,6 +24,7 @@ use crate::lru_cache::LruCache;
 
 use super::block_stream::NtfsBlockStream;
 use super::compression_range::{NtfsCompressionRange, NtfsCompressionRangeType};
+use super::constants::*;
 use super::data_run::NtfsDataRunType;
 use super::mft_attribute::NtfsMftAttribute;
 
@@ -108,6 +109,12 @@ impl NtfsCompressedStream {
         self.compression_unit_size =
             (data_attribute.compression_unit_size as usize) * (self.cluster_block_size as usize);
 
+        if self.compression_unit_size > NTFS_MAXIMUM_COMPRESSION_UNIT_SIZE {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported compression unit size: {} value out of bounds",
+                self.compression_unit_size
+            )));
+        }
         if data_attribute.allocated_data_size % (self.compression_unit_size as u64) != 0 {
             return Err(keramics_core::error_trace_new!(
                 "Unsupported allocated data size not a multitude of compression unit size"
@@ -119,7 +126,7 @@ impl NtfsCompressedStream {
             * (self.compression_unit_size as u64);
         self.block_tree = BlockTree::<NtfsCompressionRange>::new(
             block_tree_size,
-            0,
+            256,
             self.compression_unit_size as u64,
         );
 
diff --git a/keramics-formats/src/ntfs/constants.rs b/keramics-formats/src/ntfs/constants.rs
index ecdaa82..0ee66a3 100644
--- a/keramics-formats/src/ntfs/constants.rs
+++ b/keramics-formats/src/ntfs/constants.rs
@@ -93,6 +93,12 @@ pub(super) const NTFS_NAME_SPACE_WINDOWS: u8 = 0x01;
 /// NTFS DOS name space.
 pub(super) const NTFS_NAME_SPACE_DOS: u8 = 0x02;
 
+/// NTFS maximum size of the compression unit (16 MiB).
+pub(super) const NTFS_MAXIMUM_COMPRESSION_UNIT_SIZE: usize = 16777216;
+
+/// NTFS maximum size of the attribute list.
+pub(super) const NTFS_MAXIMUM_ATTRIBUTE_LIST_SIZE: u64 = 262144;
+
 /// NTFS symbolic link reparse point tag.
 pub const NTFS_REPARSE_POINT_TAG_SYMBOLIC_LINK: u32 = 0xa000000c;
 
diff --git a/keramics-formats/src/ntfs/data_run.rs b/keramics-formats/src/ntfs/data_run.rs
index de0d109..8234981 100644
--- a/keramics-formats/src/ntfs/data_run.rs
+++ b/keramics-formats/src/ntfs/data_run.rs
@@ -44,6 +44,22 @@ impl NtfsDataRun {
         }
     }
 
+    /// Retrieves the size of the range of the data run.
+    pub fn get_range_size(&self, cluster_block_size: u32) -> Result<u64, ErrorTrace> {
+        // Note that this also ensures the physical end offset of the range can be represented.
+        match self
+            .block_number
+            .checked_add(self.number_of_blocks)
+            .and_then(|block_number| block_number.checked_mul(cluster_block_size as u64))
+        {
+            Some(_) => Ok(self.number_of_blocks * (cluster_block_size as u64)),
+            None => Err(keramics_core::error_trace_new!(format!(
+                "Invalid data run block number: {}, number of blocks: {} value out of bounds",
+                self.block_number, self.number_of_blocks
+            ))),
+        }
+    }
+
     /// Reads the data run from a buffer.
     pub fn read_data(&mut self, data: &[u8], last_block_number: u64) -> Result<usize, ErrorTrace> {
         let data_size: usize = data.len();
@@ -109,9 +125,15 @@ impl NtfsDataRun {
                 block_number <<= 8;
                 block_number |= *byte_value as i64;
             }
-            block_number += last_block_number as i64;
-
-            self.block_number = block_number as u64;
+            self.block_number = match last_block_number.checked_add_signed(block_number) {
+                Some(block_number) => block_number,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid relative block number: {} value out of bounds",
+                        block_number
+                    )));
+                }
+            };
         }
         data_offset += block_number_size;
 
diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index 0ce9f61..7188ac7 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -133,7 +133,7 @@ impl NtfsIndex {
             / (self.cluster_block_size as u64))
             * (self.cluster_block_size as u64);
         self.block_tree =
-            BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, self.cluster_block_size as u64);
+            BlockTree::<NtfsBlockRange>::new(block_tree_size, 256, self.cluster_block_size as u64);
 
         let mut virtual_cluster_number: u64 = 0;
         let mut virtual_cluster_offset: u64 = 0;
@@ -146,8 +146,16 @@ impl NtfsIndex {
                 )));
             }
             for data_run in cluster_group.data_runs.iter() {
-                let range_size: u64 = data_run.number_of_blocks * (self.cluster_block_size as u64);
-
+                let range_size: u64 = match data_run.get_range_size(self.cluster_block_size) {
+                    Ok(range_size) => range_size,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to retrieve data run range size"
+                        );
+                        return Err(error);
+                    }
+                };
                 let range_type: NtfsBlockRangeType = match &data_run.run_type {
                     NtfsDataRunType::InFile => NtfsBlockRangeType::InFile,
                     _ => {
diff --git a/keramics-formats/src/ntfs/master_file_table.rs b/keramics-formats/src/ntfs/master_file_table.rs
index faecbde..8601844 100644
--- a/keramics-formats/src/ntfs/master_file_table.rs
+++ b/keramics-formats/src/ntfs/master_file_table.rs
@@ -56,12 +56,29 @@ impl NtfsMasterFileTable {
     /// Adds a cluster group to the master file table.
     fn add_cluster_group(&mut self, cluster_group: &NtfsClusterGroup) -> Result<(), ErrorTrace> {
         let mut virtual_cluster_number: u64 = cluster_group.first_vcn;
-        let mut virtual_cluster_offset: u64 =
-            cluster_group.first_vcn * (self.cluster_block_size as u64);
-
+        let mut virtual_cluster_offset: u64 = match cluster_group
+            .first_vcn
+            .checked_mul(self.cluster_block_size as u64)
+        {
+            Some(virtual_cluster_offset) => virtual_cluster_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid cluster group first VCN: {} value out of bounds",
+                    cluster_group.first_vcn
+                )));
+            }
+        };
         for data_run in cluster_group.data_runs.iter() {
-            let range_size: u64 = data_run.number_of_blocks * (self.cluster_block_size as u64);
-
+            let range_size: u64 = match data_run.get_range_size(self.cluster_block_size) {
+                Ok(range_size) => range_size,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to retrieve data run range size"
+                    );
+                    return Err(error);
+                }
+            };
             if range_size % (self.mft_entry_size as u64) != 0 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported data run - size: {} not a multitude of MFT entry size: {}",
@@ -156,8 +173,15 @@ impl NtfsMasterFileTable {
         mft_block_number: u64,
     ) -> Result<(), ErrorTrace> {
         let mut mft_entry: NtfsMftEntry = NtfsMftEntry::new();
-        let mft_offset: u64 = mft_block_number * (cluster_block_size as u64);
-
+        let mft_offset: u64 = match mft_block_number.checked_mul(cluster_block_size as u64) {
+            Some(mft_offset) => mft_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid MFT block number: {} value out of bounds",
+                    mft_block_number
+                )));
+            }
+        };
         match mft_entry.read_at_position(data_stream, mft_entry_size, SeekFrom::Start(mft_offset)) {
             Ok(_) => {}
             Err(mut error) => {
@@ -214,12 +238,18 @@ impl NtfsMasterFileTable {
             )));
         }
         self.block_tree =
-            BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, mft_entry_size as u64);
-
+            BlockTree::<NtfsBlockRange>::new(block_tree_size, 256, mft_entry_size as u64);
+        self.number_of_entries = 0;
         self.cluster_block_size = cluster_block_size;
         self.mft_entry_size = mft_entry_size;
 
-        match self.add_cluster_group(&data_attribute.data_cluster_groups[0]) {
+        let cluster_group: &NtfsClusterGroup = match data_attribute.data_cluster_groups.first() {
+            Some(cluster_group) => cluster_group,
+            None => {
+                return Err(keramics_core::error_trace_new!("Missing cluster group"));
+            }
+        };
+        match self.add_cluster_group(cluster_group) {
             Ok(_) => {}
             Err(mut error) => {
                 keramics_core::error_trace_add_frame!(error, "Unable to add cluster group");
@@ -289,7 +319,16 @@ impl NtfsMasterFileTable {
 
             match mft_attributes.get_attribute(&None, NTFS_ATTRIBUTE_TYPE_DATA) {
                 Some(mft_attribute) => {
-                    match self.add_cluster_group(&mft_attribute.data_cluster_groups[0]) {
+                    let cluster_group: &NtfsClusterGroup =
+                        match mft_attribute.data_cluster_groups.first() {
+                            Some(cluster_group) => cluster_group,
+                            None => {
+                                return Err(keramics_core::error_trace_new!(
+                                    "Missing cluster group"
+                                ));
+                            }
+                        };
+                    match self.add_cluster_group(cluster_group) {
                         Ok(_) => {}
                         Err(mut error) => {
                             keramics_core::error_trace_add_frame!(
diff --git a/keramics-formats/src/ntfs/mft_attribute.rs b/keramics-formats/src/ntfs/mft_attribute.rs
index 116ecf9..6b6e1a8 100644
--- a/keramics-formats/src/ntfs/mft_attribute.rs
+++ b/keramics-formats/src/ntfs/mft_attribute.rs
@@ -120,7 +120,7 @@ impl NtfsMftAttribute {
 
     /// Merges the other attribute with the current one.
     pub fn merge(&mut self, other: &mut Self) -> Result<(), ErrorTrace> {
-        if other.is_resident() {
+        if self.is_resident() || other.is_resident() {
             return Err(keramics_core::error_trace_new!(
                 "Unsupported resident attribute"
             ));
diff --git a/keramics-formats/src/ntfs/mft_attribute_header.rs b/keramics-formats/src/ntfs/mft_attribute_header.rs
index ed8816a..f1af1e9 100644
--- a/keramics-formats/src/ntfs/mft_attribute_header.rs
+++ b/keramics-formats/src/ntfs/mft_attribute_header.rs
@@ -72,6 +72,12 @@ impl NtfsMftAttributeHeader {
         }
         self.attribute_type = bytes_to_u32_le!(data, 0);
         self.attribute_size = bytes_to_u32_le!(data, 4);
+        if self.attribute_size < 16 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported attribute size: {}",
+                self.attribute_size
+            )));
+        }
         self.non_resident_flag = data[8];
         self.name_size = data[9];
         self.name_offset = bytes_to_u16_le!(data, 10);
diff --git a/keramics-formats/src/ntfs/wof_compressed_stream.rs b/keramics-formats/src/ntfs/wof_compressed_stream.rs
index 79ee328..b493b64 100644
--- a/keramics-formats/src/ntfs/wof_compressed_stream.rs
+++ b/keramics-formats/src/ntfs/wof_compressed_stream.rs
@@ -146,16 +146,31 @@ impl NtfsWofCompressedStream {
                 break;
             }
             let block_index: u64 = current_offset / (self.compression_unit_size as u64);
-            let block_offset: u64 = self.block_offsets[block_index as usize];
-
+            let block_offset: u64 = match self.block_offsets.get(block_index as usize) {
+                Some(block_offset) => *block_offset,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Missing block offset: {}",
+                        block_index
+                    )));
+                }
+            };
             let next_block_index: usize = (block_index as usize) + 1;
             let next_block_offset: u64 = if next_block_index < self.block_offsets.len() {
                 self.block_offsets[next_block_index]
             } else {
                 self.compressed_size
             };
+            // Note that a compressed block is never larger than its uncompressed data.
+            if next_block_offset < block_offset
+                || next_block_offset - block_offset > self.compression_unit_size as u64
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid next block offset: {} (0x{:08x}) value out of bounds",
+                    next_block_offset, next_block_offset
+                )));
+            }
             let block_size: usize = (next_block_offset - block_offset) as usize;
-
             let range_offset: u64 = block_index * (self.compression_unit_size as u64);
             let range_size: u64 = min(self.compression_unit_size as u64, self.size - range_offset);
             let block_relative_offset: u64 = current_offset - range_offset;
@@ -300,7 +315,12 @@ impl NtfsWofCompressedStream {
         // Note that the number of block offsets in the table is total number of blocks - 1.
         // Given that the first block offset is directly after the block offsets table.
         let data_size: usize = (number_of_block_offsets - 1) * block_offset_data_size;
-
+        if data_size as u64 > self.compressed_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid size: {} value out of bounds",
+                self.size
+            )));
+        }
         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
             Some(data_stream) => data_stream,
             None => {
@@ -321,24 +341,23 @@ impl NtfsWofCompressedStream {
             ));
             self.mediator.debug_print_data(&data, true);
         }
-        self.block_offsets.push(data_size as u64);
-
+        let mut block_offsets: Vec<u64> = vec![data_size as u64];
         for data_offset in (0..data_size).step_by(block_offset_data_size) {
-            let mut block_offset: u64 = if block_offset_data_size == 8 {
+            let relative_block_offset: u64 = if block_offset_data_size == 8 {
                 bytes_to_u64_le!(data, data_offset)
             } else {
                 bytes_to_u32_le!(data, data_offset) as u64
             };
-            block_offset += data_size as u64;
-
-            if block_offset > self.compressed_size {
+            if relative_block_offset > self.compressed_size - (data_size as u64) {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid block offset: {} (0x{:08x}) value out of bounds",
-                    block_offset, block_offset
+                    relative_block_offset, relative_block_offset
                 )));
             }
-            self.block_offsets.push(block_offset);
+            block_offsets.push(relative_block_offset + (data_size as u64));
         }
+        self.block_offsets = block_offsets;
+
         if self.mediator.debug_output {
             self.mediator
                 .debug_print(format!("NtfsWofCompressedBlockOffsets {{\n",));
-- 
2.43.0


From 9b36287daf53d358f807212e4e2cf1ff0b167392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 112/129] fix: qcow, vhd, vhdx: reject cyclic backing or parent
 files

---
 keramics-formats/src/qcow/image.rs | 9 +++++++++
 keramics-formats/src/vhd/image.rs  | 9 +++++++++
 keramics-formats/src/vhdx/image.rs | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/keramics-formats/src/qcow/image.rs b/keramics-formats/src/qcow/image.rs
index 33a712a..866ea4b 100644
--- a/keramics-formats/src/qcow/image.rs
+++ b/keramics-formats/src/qcow/image.rs
@@ -57,6 +57,7 @@ impl QcowImage {
         file_name: &PathComponent,
     ) -> Result<(), ErrorTrace> {
         let mut files: Vec<QcowFile> = Vec::new();
+        let mut file_names: Vec<String> = vec![file_name.to_string()];
 
         let path_components: [PathComponent; 1] = [file_name.clone()];
         let result: Option<DataStreamReference> =
@@ -91,6 +92,13 @@ impl QcowImage {
         while let Some(file_name) = file.get_backing_file_name() {
             let backing_file_name: String = file_name.to_string();
 
+            // Note that a file that is its own (indirect) backing would result in an endless chain.
+            if file_names.contains(&backing_file_name) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported backing file: {} is already part of the chain",
+                    backing_file_name
+                )));
+            }
             let path_components: [PathComponent; 1] = [PathComponent::from(&backing_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
@@ -119,6 +127,7 @@ impl QcowImage {
                 }
             }
             files.push(file);
+            file_names.push(backing_file_name);
 
             file = backing_file;
         }
diff --git a/keramics-formats/src/vhd/image.rs b/keramics-formats/src/vhd/image.rs
index 43c4e6c..d2d6a79 100644
--- a/keramics-formats/src/vhd/image.rs
+++ b/keramics-formats/src/vhd/image.rs
@@ -59,6 +59,7 @@ impl VhdImage {
         file_name: &PathComponent,
     ) -> Result<(), ErrorTrace> {
         let mut files: Vec<VhdFile> = Vec::new();
+        let mut file_names: Vec<String> = vec![file_name.to_string()];
 
         let path_components: [PathComponent; 1] = [file_name.clone()];
         let result: Option<DataStreamReference> =
@@ -97,6 +98,13 @@ impl VhdImage {
                     return Err(keramics_core::error_trace_new!("Missing parent file name"));
                 }
             };
+            // Note that a file that is its own (indirect) parent would result in an endless chain.
+            if file_names.contains(&parent_file_name) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported parent file: {} is already part of the chain",
+                    parent_file_name
+                )));
+            }
             let path_components: [PathComponent; 1] = [PathComponent::from(&parent_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
@@ -128,6 +136,7 @@ impl VhdImage {
                 }
             }
             files.push(file);
+            file_names.push(parent_file_name);
 
             file = parent_file;
         }
diff --git a/keramics-formats/src/vhdx/image.rs b/keramics-formats/src/vhdx/image.rs
index f0a9fd3..b2756ef 100644
--- a/keramics-formats/src/vhdx/image.rs
+++ b/keramics-formats/src/vhdx/image.rs
@@ -59,6 +59,7 @@ impl VhdxImage {
         file_name: &PathComponent,
     ) -> Result<(), ErrorTrace> {
         let mut files: Vec<VhdxFile> = Vec::new();
+        let mut file_names: Vec<String> = vec![file_name.to_string()];
 
         let path_components: [PathComponent; 1] = [file_name.clone()];
         let result: Option<DataStreamReference> =
@@ -97,6 +98,13 @@ impl VhdxImage {
                     return Err(keramics_core::error_trace_new!("Missing parent file name"));
                 }
             };
+            // Note that a file that is its own (indirect) parent would result in an endless chain.
+            if file_names.contains(&parent_file_name) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported parent file: {} is already part of the chain",
+                    parent_file_name
+                )));
+            }
             let path_components: [PathComponent; 1] = [PathComponent::from(&parent_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
@@ -128,6 +136,7 @@ impl VhdxImage {
                 }
             }
             files.push(file);
+            file_names.push(parent_file_name);
 
             file = parent_file;
         }
-- 
2.43.0


From 516d3bd32d14ccd35d1b9a8795322c65603d367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 113/129] fix: vhdx: reject block offsets that are out of range

---
 keramics-formats/src/vhdx/block_allocation_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/vhdx/block_allocation_table.rs b/keramics-formats/src/vhdx/block_allocation_table.rs
index 3cf7484..5c32676 100644
--- a/keramics-formats/src/vhdx/block_allocation_table.rs
+++ b/keramics-formats/src/vhdx/block_allocation_table.rs
@@ -58,6 +58,12 @@ impl VhdxBlockAllocationTableEntry {
         self.block_state = (entry & 0x0000000000000007) as u8;
         self.block_offset = entry & 0xfffffffffff00000;
 
+        if self.block_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block offset: {} (0x{:08x}) value out of bounds",
+                self.block_offset, self.block_offset
+            )));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From f1db7f425c38ed4e2757a44762512e449981949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 114/129] fix: udif: check the end of the data fork without
 overflow

---
 keramics-formats/src/udif/file.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index f7214a1..ff9e6cd 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -111,8 +111,18 @@ impl UdifFile {
         }
         self.bytes_per_sector = 512;
 
-        let data_fork_end_offset: u64 = file_footer.data_fork_offset + file_footer.data_fork_size;
-
+        let data_fork_end_offset: u64 = match file_footer
+            .data_fork_offset
+            .checked_add(file_footer.data_fork_size)
+        {
+            Some(data_fork_end_offset) => data_fork_end_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid data fork size: {} value out of bounds",
+                    file_footer.data_fork_size
+                )));
+            }
+        };
         if file_footer.plist_size == 0 {
             self.data_fork_offset = file_footer.data_fork_offset;
             self.has_block_ranges = false;
-- 
2.43.0


From a658523a2e56b8a7ed4cbac1e62e70b7b4095258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 115/129] fix: ext: stop reading block groups at the end of the
 data

---
 keramics-formats/src/ext/file_system.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index f77ee05..2a38f2e 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -251,15 +251,17 @@ impl ExtFileSystem {
         let mut number_of_inodes_per_block_group: u32 = 0;
         let mut group_descriptors: Vec<ExtGroupDescriptor> = Vec::new();
 
+        let data_size: u64 = keramics_core::data_stream_get_size!(data_stream);
+
         loop {
             if exponent3 < block_group_number {
-                exponent3 *= 3;
+                exponent3 = exponent3.saturating_mul(3);
             }
             if exponent5 < block_group_number {
-                exponent5 *= 5;
+                exponent5 = exponent5.saturating_mul(5);
             }
             if exponent7 < block_group_number {
-                exponent7 *= 7;
+                exponent7 = exponent7.saturating_mul(7);
             }
             // The first block group will always contain a superblock.
             let block_group_has_superblock: bool = if block_group_number == 0 {
@@ -459,6 +461,10 @@ impl ExtFileSystem {
             if block_group_number as u64 >= number_of_block_groups {
                 break;
             }
+            // There are no block groups to read after the end of the data.
+            if block_group_offset >= data_size {
+                break;
+            }
         }
         if number_of_inodes_per_block_group > 0 {
             match Arc::get_mut(&mut self.inode_table) {
-- 
2.43.0


From c9f3f5a883cd3a7e19cf629889117c4b58374fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 116/129] fix: vhd: check the block size and block allocation
 table offset

---
 keramics-formats/src/vhd/block_allocation_table.rs | 10 +++++++++-
 keramics-formats/src/vhd/file.rs                   |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/vhd/block_allocation_table.rs b/keramics-formats/src/vhd/block_allocation_table.rs
index f364c24..3466517 100644
--- a/keramics-formats/src/vhd/block_allocation_table.rs
+++ b/keramics-formats/src/vhd/block_allocation_table.rs
@@ -82,7 +82,15 @@ impl VhdBlockAllocationTable {
                 entry_index
             )));
         }
-        let entry_offset: u64 = self.offset + (entry_index as u64 * 4);
+        let entry_offset: u64 = match self.offset.checked_add(entry_index as u64 * 4) {
+            Some(entry_offset) => entry_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid block allocation table offset: {} value out of bounds",
+                    self.offset
+                )));
+            }
+        };
         let mut data: [u8; 4] = [0; 4];
 
         keramics_core::data_stream_read_exact_at_position!(
diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 9bbff1b..3ae497b 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -167,6 +167,13 @@ impl VhdFile {
                 }
             }
             let block_size: u64 = dynamic_disk_header.block_size as u64;
+
+            if block_size == 0 || block_size % 512 != 0 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported block size: {}",
+                    block_size
+                )));
+            }
             let block_tree_data_size: u64 =
                 (dynamic_disk_header.number_of_blocks as u64) * block_size;
 
@@ -194,7 +201,7 @@ impl VhdFile {
             ));
             self.block_tree = BlockTree::<VhdBlockRange>::new(
                 block_tree_data_size,
-                sectors_ber_block as u64,
+                256,
                 512,
             );
         }
-- 
2.43.0


From 1c863977391dc96180fd677f4bc33e99586ea118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 117/129] fix: qcow: check the media size without overflow

---
 keramics-formats/src/qcow/file.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 7495306..bd7159b 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -230,6 +230,7 @@ impl QcowFile {
             file_header.level1_table_number_of_references as u64;
 
         if self.format_version == 1 {
+            // Note that both values are a power of 2.
             if self.cluster_block_size > u64::MAX / self.level2_table_number_of_references {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid level 2 table number of references: {} value out of bounds",
@@ -268,8 +269,19 @@ impl QcowFile {
             level1_table_number_of_references as u32,
         );
 
-        let block_tree_data_size: u64 =
-            self.media_size.div_ceil(self.cluster_block_size) * self.cluster_block_size;
+        let block_tree_data_size: u64 = match self
+            .media_size
+            .div_ceil(self.cluster_block_size)
+            .checked_mul(self.cluster_block_size)
+        {
+            Some(block_tree_data_size) => block_tree_data_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid media size: {} value out of bounds",
+                    self.media_size
+                )));
+            }
+        };
         self.block_tree = BlockTree::<QcowBlockRange>::new(
             block_tree_data_size,
             self.level2_table_number_of_references,
-- 
2.43.0


From 9d3b3887531e97c7baec764924bfc134447e6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 118/129] fix: finder: do not search a directory that contains
 itself

---
 keramics-vfs/src/file_entry.rs    | 22 ++++++++++++++++++++++
 keramics-vfs/src/finder/finder.rs | 11 +++++++++++
 2 files changed, 33 insertions(+)

diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index 6c099dc..07e4f55 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -186,6 +186,28 @@ impl VfsFileEntry {
         }
     }
 
+    /// Determines if the file entry is the same directory as the other file entry.
+    pub(crate) fn is_same_directory(&self, other: &VfsFileEntry) -> bool {
+        match (self, other) {
+            (VfsFileEntry::Ext(file_entry), VfsFileEntry::Ext(other_file_entry)) => {
+                other_file_entry.inode_number == file_entry.inode_number
+                    && matches!(other.get_file_type(), VfsFileType::Directory)
+            }
+            (VfsFileEntry::Fat(file_entry), VfsFileEntry::Fat(other_file_entry)) => {
+                // Note that the first entry in the root directory can have the same identifier
+                // as the root directory.
+                other_file_entry.identifier == file_entry.identifier
+                    && other_file_entry.is_root_directory() == file_entry.is_root_directory()
+                    && matches!(other.get_file_type(), VfsFileType::Directory)
+            }
+            (VfsFileEntry::Ntfs(file_entry), VfsFileEntry::Ntfs(other_file_entry)) => {
+                other_file_entry.mft_entry_number == file_entry.mft_entry_number
+                    && matches!(other.get_file_type(), VfsFileType::Directory)
+            }
+            _ => false,
+        }
+    }
+
     /// Retrieves the name.
     pub fn get_name(&self) -> Option<VfsString> {
         match self {
diff --git a/keramics-vfs/src/finder/finder.rs b/keramics-vfs/src/finder/finder.rs
index 8d6733e..ec833b0 100644
--- a/keramics-vfs/src/finder/finder.rs
+++ b/keramics-vfs/src/finder/finder.rs
@@ -115,6 +115,17 @@ impl<'a> Iterator for VfsFinder<'a> {
 
             match result {
                 Ok(mut file_entry) => {
+                    // Prevent searching a directory that contains itself, directly or indirectly.
+                    if self
+                        .states
+                        .iter()
+                        .any(|state| state.file_entry.is_same_directory(&file_entry))
+                    {
+                        return Some(Err(keramics_core::error_trace_new!(format!(
+                            "Sub file entry: {} is a directory that contains itself",
+                            sub_file_entry_index
+                        ))));
+                    }
                     // TODO: if file_entry.get_number_of_sub_file_entries() fails return file_entry and error.
                     let number_of_sub_file_entries: usize =
                         match file_entry.get_number_of_sub_file_entries() {
-- 
2.43.0


From 428ed26bdead382cbb76120f6c8b76cb6fe44f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 119/129] fix: fat: limit the size of directories and of the
 searched block allocation table

---
 keramics-formats/src/fat/block_allocation_table.rs | 5 ++++-
 keramics-formats/src/fat/directory_entries.rs      | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index c7e2068..eabbf54 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -74,7 +74,10 @@ impl FatBlockAllocationTable {
         data_stream: &DataStreamReference,
         cluster_block_number: u32,
     ) -> Result<Option<u32>, ErrorTrace> {
-        let number_of_entries: u64 = (self.number_of_entries as u64) + 2;
+        let number_of_entries: u64 = min(
+            (self.number_of_entries as u64) + 2,
+            self.get_largest_cluster_block_number() as u64,
+        );
         let table_size: u64 = match &self.format {
             FatFormat::Fat12 => number_of_entries.div_ceil(2) * 3,
             FatFormat::Fat16 => number_of_entries * 2,
diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index f2a3c7b..3504083 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -226,6 +226,7 @@ impl FatDirectoryEntries {
         let mut data: Vec<u8> = vec![0; block_allocation_table.cluster_block_size as usize];
 
         let mut read_cluster_block_numbers: HashSet<u32> = HashSet::new();
+        let mut data_size: u64 = 0;
         let mut last_vfat_sequence_number: u8 = 0;
         let mut long_name_entries: Vec<FatLongNameDirectoryEntry> = Vec::new();
 
@@ -236,6 +237,12 @@ impl FatDirectoryEntries {
                     cluster_block_number
                 )));
             }
+            // 65536 entries x 32 bytes = 2097152 bytes (2 MiB)
+            if data_size >= 2097152 {
+                return Err(keramics_core::error_trace_new!(
+                    "Unsupported directory entries data size value out of bounds"
+                ));
+            }
             let offset: u64 = block_allocation_table.first_cluster_offset
                 + (((cluster_block_number - 2) as u64)
                     * (block_allocation_table.cluster_block_size as u64));
@@ -272,7 +279,7 @@ impl FatDirectoryEntries {
                 }
             }
             read_cluster_block_numbers.insert(cluster_block_number);
-
+            data_size += data.len() as u64;
             cluster_block_number =
                 match block_allocation_table.read_entry(data_stream, cluster_block_number) {
                     Ok(entry) => entry,
-- 
2.43.0


From 527e9eefa59a931eefdb4bc509dceac7bf1e4a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 120/129] fix: ntfs: check the bounds of index values and
 reject cyclic directory indexes

---
 .../src/ntfs/directory_entries.rs             |  2 +-
 keramics-formats/src/ntfs/directory_index.rs  | 65 +++++++++++++++++--
 2 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/ntfs/directory_entries.rs b/keramics-formats/src/ntfs/directory_entries.rs
index df4437d..84ca1c4 100644
--- a/keramics-formats/src/ntfs/directory_entries.rs
+++ b/keramics-formats/src/ntfs/directory_entries.rs
@@ -42,7 +42,7 @@ impl NtfsDirectoryEntries {
     /// Adds an entry.
     pub fn add(&mut self, file_reference: u64, file_name: NtfsFileName) -> Result<(), ErrorTrace> {
         // TODO: preserve self $FILE_NAME entry.
-        if file_name.name_size == 1 && file_name.name.elements[0] == 0x002e {
+        if file_name.name.elements.len() == 1 && file_name.name.elements[0] == 0x002e {
             // Ignore "."
         } else if file_name.name_space == NTFS_NAME_SPACE_DOS {
             if self.short_names.contains_key(&file_reference) {
diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index 2739c48..7f46860 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -12,7 +12,7 @@
  */
 
 use std::cmp::Ordering;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
 use keramics_core::mediator::{Mediator, MediatorReference};
@@ -194,9 +194,16 @@ impl NtfsDirectoryIndex {
                 16,
                 data_stream,
                 &case_folded_name,
+                &mut HashSet::new(),
             )
         } else {
-            self.get_directory_entry_by_name_from_node(&self.root_node_data, 16, data_stream, name)
+            self.get_directory_entry_by_name_from_node(
+                &self.root_node_data,
+                16,
+                data_stream,
+                name,
+                &mut HashSet::new(),
+            )
         }
     }
 
@@ -207,6 +214,7 @@ impl NtfsDirectoryIndex {
         index_node_offset: usize,
         data_stream: &DataStreamReference,
         name: &Ucs2String,
+        sub_node_vcns: &mut HashSet<u64>,
     ) -> Result<Option<NtfsDirectoryEntry>, ErrorTrace> {
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
@@ -308,6 +316,12 @@ impl NtfsDirectoryIndex {
                         return Err(error);
                     }
                 };
+            if !sub_node_vcns.insert(sub_node_vcn) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid sub node VCN: {} already read",
+                    sub_node_vcn
+                )));
+            }
             // TODO: skip if sub node is not allocated.
 
             let index_entry: NtfsIndexEntry = match self
@@ -321,8 +335,13 @@ impl NtfsDirectoryIndex {
                 }
             };
             let result: Option<NtfsDirectoryEntry> = match self
-                .get_directory_entry_by_name_from_node(&index_entry.data, 24, data_stream, name)
-            {
+                .get_directory_entry_by_name_from_node(
+                    &index_entry.data,
+                    24,
+                    data_stream,
+                    name,
+                    sub_node_vcns,
+                ) {
                 Ok(result) => result,
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
@@ -361,6 +380,24 @@ impl NtfsDirectoryIndex {
         index_node_offset: usize,
         data_stream: &DataStreamReference,
         entries: &mut NtfsDirectoryEntries,
+    ) -> Result<(), ErrorTrace> {
+        self.get_directory_entries_from_tree(
+            data,
+            index_node_offset,
+            data_stream,
+            entries,
+            &mut HashSet::new(),
+        )
+    }
+
+    /// Retrieves the directory entries from an index node and its sub nodes.
+    fn get_directory_entries_from_tree(
+        &self,
+        data: &[u8],
+        index_node_offset: usize,
+        data_stream: &DataStreamReference,
+        entries: &mut NtfsDirectoryEntries,
+        sub_node_vcns: &mut HashSet<u64>,
     ) -> Result<(), ErrorTrace> {
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
@@ -418,6 +455,12 @@ impl NtfsDirectoryIndex {
                             return Err(error);
                         }
                     };
+                if !sub_node_vcns.insert(sub_node_vcn) {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid sub node VCN: {} already read",
+                        sub_node_vcn
+                    )));
+                }
                 // TODO: skip if sub node is not allocated.
 
                 let index_entry: NtfsIndexEntry = match self
@@ -433,11 +476,12 @@ impl NtfsDirectoryIndex {
                         return Err(error);
                     }
                 };
-                match self.get_directory_entries_from_node(
+                match self.get_directory_entries_from_tree(
                     &index_entry.data,
                     24,
                     data_stream,
                     entries,
+                    sub_node_vcns,
                 ) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -497,6 +541,11 @@ impl NtfsDirectoryIndex {
     ) -> Result<u64, ErrorTrace> {
         let index_value_end_offset: usize = index_value_offset + value_data_size;
 
+        if index_value_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid index branch value offset value out of bounds"
+            ));
+        }
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "NtfsDirectoryIndexBranchValueData data of size: {} at offset: {} (0x{:08x})\n",
@@ -573,7 +622,7 @@ impl NtfsDirectoryIndex {
         }
         let index_node_size: usize = index_node_header.size as usize;
 
-        if index_node_size > data.len() {
+        if index_node_size > data.len() - index_node_offset {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid index node size: {} value out of bounds",
                 index_node_header.size
@@ -628,7 +677,9 @@ impl NtfsDirectoryIndex {
         }
         let value_data_size: usize = index_value.size as usize;
 
-        if value_data_size > data.len() - index_value_offset {
+        if value_data_size > data.len() - index_value_offset
+            || value_data_size < 16 + (index_value.key_data_size as usize)
+        {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid index value size: {} value out of bounds",
                 index_value.size,
-- 
2.43.0


From c09b3fd245f06ba95950bf1c8a1fa66cb07eec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 121/129] fix: ewf: limit the number of elements per block tree
 node

---
 keramics-formats/src/ewf/image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index bad0a01..97be033 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -1112,8 +1112,8 @@ impl EwfImage {
 
         self.block_tree = BlockTree::<EwfBlockRange>::new(
             block_tree_data_size,
-            self.sectors_per_chunk as u64,
-            self.bytes_per_sector as u64,
+            256,
+            self.block_size as u64,
         );
         Ok(())
     }
-- 
2.43.0


From aabea35740d2a2280b61ed92faaf694fa9d90a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 122/129] fix: types: ignore a remaining odd byte in UCS-2 and
 UTF-16 data

---
 keramics-types/src/ucs2_string.rs  | 9 ++++++---
 keramics-types/src/utf16_string.rs | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/keramics-types/src/ucs2_string.rs b/keramics-types/src/ucs2_string.rs
index cab4401..067ab89 100644
--- a/keramics-types/src/ucs2_string.rs
+++ b/keramics-types/src/ucs2_string.rs
@@ -47,7 +47,8 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in big-endian.
     pub fn from_be_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        // Note that a remaining odd byte is ignored.
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -62,7 +63,8 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in little-endian.
     pub fn from_le_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        // Note that a remaining odd byte is ignored.
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -89,7 +91,8 @@ impl Ucs2String {
 
     /// Reads a string from a buffer in little-endian.
     pub fn read_data_le(&mut self, data: &[u8]) {
-        let data_size: usize = data.len();
+        // Note that a remaining odd byte is ignored.
+        let data_size: usize = data.len() - (data.len() % 2);
 
         for data_offset in (0..data_size).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 306b23b..a6c367a 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -30,7 +30,8 @@ impl Utf16String {
 
     /// Reads a big-endian UTF-16 string from a byte sequence.
     pub fn from_be_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        // Note that a remaining odd byte is ignored.
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -45,7 +46,8 @@ impl Utf16String {
 
     /// Reads a little-endian UTF-16 string from a byte sequence.
     pub fn from_le_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        // Note that a remaining odd byte is ignored.
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
-- 
2.43.0


From 2c80d458e075c7be1087f69eb6becce70477b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 123/129] fix: qcow: check the cluster table offset without
 overflow

---
 keramics-formats/src/qcow/cluster_table.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/cluster_table.rs b/keramics-formats/src/qcow/cluster_table.rs
index 6d1cca0..a761117 100644
--- a/keramics-formats/src/qcow/cluster_table.rs
+++ b/keramics-formats/src/qcow/cluster_table.rs
@@ -83,7 +83,15 @@ impl QcowClusterTable {
                 entry_index
             )));
         }
-        let entry_offset: u64 = self.offset + (entry_index as u64 * 8);
+        let entry_offset: u64 = match self.offset.checked_add(entry_index as u64 * 8) {
+            Some(entry_offset) => entry_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid cluster table offset: {} value out of bounds",
+                    self.offset
+                )));
+            }
+        };
         let mut data: [u8; 8] = [0; 8];
 
         keramics_core::data_stream_read_exact_at_position!(
-- 
2.43.0


From f06d75ef2d2577ae80995b2edcdea57c08d06d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 124/129] fix: ext: do not read backups that are not used

---
 keramics-formats/src/ext/file_system.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index 2a38f2e..710e15b 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -15,6 +15,7 @@ use std::io::SeekFrom;
 use std::sync::Arc;
 
 use keramics_checksums::ReversedCrc32Context;
+use keramics_core::mediator::Mediator;
 use keramics_core::{DataStreamReference, ErrorTrace};
 use keramics_datetime::DateTime;
 use keramics_encodings::CharacterEncoding;
@@ -253,6 +254,8 @@ impl ExtFileSystem {
 
         let data_size: u64 = keramics_core::data_stream_get_size!(data_stream);
 
+        // Note that backups are currently only read to show them in debug output.
+        let read_backups: bool = Mediator::current().debug_output;
         loop {
             if exponent3 < block_group_number {
                 exponent3 = exponent3.saturating_mul(3);
@@ -347,7 +350,7 @@ impl ExtFileSystem {
                             crc32_context.finalize()
                         }
                     };
-                } else {
+                } else if read_backups {
                     let mut superblock: ExtSuperblock =
                         ExtSuperblock::new(&self.character_encoding);
 
@@ -384,7 +387,11 @@ impl ExtFileSystem {
                     block_group_has_group_descriptors = true;
                 }
             }
-            if block_group_has_group_descriptors {
+            let block_group_is_backup: bool = block_group_number > 0
+                && (!self.features.has_meta_block_groups()
+                    || block_group_number < meta_group_start_block_number);
+
+            if block_group_has_group_descriptors && (read_backups || !block_group_is_backup) {
                 let mut group_descriptor_offset: u64 = block_group_offset;
 
                 if self.block_size == 1024 {
@@ -420,10 +427,7 @@ impl ExtFileSystem {
                 {
                     Ok(_) => {}
                     // Ignore backup group descriptor tables that cannot be read.
-                    Err(_)
-                        if block_group_number > 0
-                            && (!self.features.has_meta_block_groups()
-                                || block_group_number < meta_group_start_block_number) => {}
+                    Err(_) if block_group_is_backup => {}
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
-- 
2.43.0


From 2605eb44073e32320adca226183ef9d805712fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 125/129] fix: ext: check the number of inodes against the
 number of block groups

---
 keramics-formats/src/ext/file_system.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index 710e15b..b3ec004 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -334,6 +334,17 @@ impl ExtFileSystem {
                     }
                     number_of_inodes_per_block_group = superblock.number_of_inodes_per_block_group;
 
+                    if number_of_inodes_per_block_group > 0
+                        && number_of_block_groups.checked_mul(number_of_inodes_per_block_group as u64)
+                            != Some(self.number_of_inodes as u64)
+                    {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Mismatch between number of inodes: {} and: {} block groups with: {} inodes",
+                            self.number_of_inodes,
+                            number_of_block_groups,
+                            number_of_inodes_per_block_group
+                        )));
+                    }
                     if self.features.has_meta_block_groups() {
                         let group_descriptor_size: u32 = self.features.get_group_descriptor_size();
                         number_of_block_groups_per_meta_group =
-- 
2.43.0


From 29e0bc12305d1802206ff6b24de347a1b6c3c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 126/129] fix: ext: check the bounds of the inode extension

---
 keramics-formats/src/ext/inode_extension_ext4.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 5d0b1c5..183eba5 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -56,8 +56,19 @@ impl Ext4InodeExtension {
 
     /// Reads the inode exension from a buffer.
     pub fn read_data(inode: &mut ExtInode, data: &[u8]) -> Result<(), ErrorTrace> {
+        if data.len() < 4 {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported ext4 inode extension data size"
+            ));
+        }
         let extra_size: u16 = bytes_to_u16_le!(data, 0);
 
+        if (extra_size as usize) > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid extra inode size: {} value out of bounds",
+                extra_size
+            )));
+        }
         if extra_size >= 4 {
             let upper_16bit: u16 = bytes_to_u16_le!(data, 2);
             inode.checksum |= (upper_16bit as u32) << 16;
-- 
2.43.0


From 99f1d4017d0e8e98dc279fc477fb5c2f8d2724a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 127/129] fix: vhdx: check the block offset where it is used

---
 keramics-formats/src/vhdx/block_allocation_table.rs |  7 -------
 keramics-formats/src/vhdx/file.rs                   | 12 ++++++++++++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/vhdx/block_allocation_table.rs b/keramics-formats/src/vhdx/block_allocation_table.rs
index 5c32676..5c6cb7b 100644
--- a/keramics-formats/src/vhdx/block_allocation_table.rs
+++ b/keramics-formats/src/vhdx/block_allocation_table.rs
@@ -57,13 +57,6 @@ impl VhdxBlockAllocationTableEntry {
 
         self.block_state = (entry & 0x0000000000000007) as u8;
         self.block_offset = entry & 0xfffffffffff00000;
-
-        if self.block_offset > i64::MAX as u64 {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Invalid block offset: {} (0x{:08x}) value out of bounds",
-                self.block_offset, self.block_offset
-            )));
-        }
         Ok(())
     }
 }
diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 699ab55..bebc882 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -591,6 +591,12 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
+        if entry.block_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block offset: {} (0x{:08x}) value out of bounds",
+                entry.block_offset, entry.block_offset
+            )));
+        }
         if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
@@ -672,6 +678,12 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
+        if entry.block_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block offset: {} (0x{:08x}) value out of bounds",
+                entry.block_offset, entry.block_offset
+            )));
+        }
         let sector_bitmap_offset: u64 = entry.block_offset
             + ((block_number % self.entries_per_chunk) * self.sector_bitmap_size as u64);
 
-- 
2.43.0


From 8758e62421bd21eb1d1a9934b8ac01c0403049a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 128/129] fix: keep the spaces in a FAT volume label

---
 .../src/fat/short_name_directory_entry.rs     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index d7b78e2..61e5d94 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -109,9 +109,17 @@ impl FatShortNameDirectoryEntry {
         self.file_attribute_flags = data[11];
         self.flags = data[12];
 
-        let slice: &[u8] = match data[0..8].iter().rev().position(|value| *value != b' ') {
-            Some(data_index) => &data[0..8 - data_index],
-            None => &data[0..8],
+        // The name and extension of a volume label are a single string that can contain spaces.
+        let is_volume_label: bool =
+            self.file_attribute_flags & 0x58 == FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL;
+        let name_size: usize = if is_volume_label { 11 } else { 8 };
+        let slice: &[u8] = match data[0..name_size]
+            .iter()
+            .rev()
+            .position(|value| *value != b' ')
+        {
+            Some(data_index) => &data[0..name_size - data_index],
+            None => &data[0..name_size],
         };
         for byte_value in slice.iter() {
             if self.flags & 0x08 != 0 && *byte_value >= b'A' && *byte_value <= b'Z' {
@@ -120,11 +128,9 @@ impl FatShortNameDirectoryEntry {
                 self.name.elements.push(*byte_value);
             }
         }
-        if data[8] != 0 && data[8] != b' ' {
-            // Do not add an extension separator for a volume label.
-            if self.file_attribute_flags & 0x58 != FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
-                self.name.elements.push(b'.');
-            }
+        if !is_volume_label && data[8] != 0 && data[8] != b' ' {
+            self.name.elements.push(b'.');
+
             let slice: &[u8] = match data[8..11].iter().rev().position(|value| *value != b' ') {
                 Some(data_index) => &data[8..11 - data_index],
                 None => &data[8..11],
-- 
2.43.0


From c4b7972b4567bd8a8d6201e1fe87e5ef9e687241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 129/129] fix: retrieve ext4 creation times from 2038 onwards

---
 keramics-formats/src/ext/inode_extension_ext4.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 183eba5..eac3e23 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -112,8 +112,7 @@ impl Ext4InodeExtension {
             let extra_precision: u32 = bytes_to_u32_le!(data, 20);
             let (extra_precision_timestamp, fraction): (i64, u32) =
                 Self::get_extra_precision_timestamp(timestamp, extra_precision);
-
-            if timestamp > 0 {
+            if extra_precision_timestamp > 0 {
                 inode.creation_time = Some(DateTime::PosixTime64Ns(PosixTime64Ns::new(
                     extra_precision_timestamp,
                     fraction,
-- 
2.43.0

